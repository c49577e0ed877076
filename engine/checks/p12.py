"""P12: run-time checks precede the use of the values they protect."""
import re

import core
import guarded
import balance
from facts import AnalysisError

WANT = ["src/lower.c", "src/vcode.c", "src/mir/mir-node.c", "src/mir/mir-vcode.c",
        "src/jit/jit-irgen.c", "src/jit/jit-exits.c", "src/jit/jit-core.c"]
EXPLAIN = """
The code generator (lower.c) emits one operation per check and one per use.
(stored) A value obtained from lowering an expression reaches an operation that
stores, copies, schedules, forces or returns it -- directly or through helper
functions, whose parameters are summarised per switch case -- only on paths where
a range or array-length check was emitted for it, unless its type is an access or
record type (records are copied field by field through checking helpers).
(passed) The same for values handed to subprograms and produced by qualified
expressions and subtype conversions.
(against) The subtype given to such a check is not the subtype of the very
expression it protects.
(indexed) An index reaches the offset computation only after its index check,
unless the analyser proved it in bounds (TREE_F_ELIDE_BOUNDS); the two ends of a
range are checked together; left, right and direction given to a check belong to
the same range.
(divisor) Operands of division, mod, rem and integer exponentiation and
dereferenced access values are used only after zero, exponent and null checks.
(elided) A check is dropped only for a constant that satisfies it, for equal
operands, because an identical check precedes it in the same block, or because the
static bounds of the value lie within constant bounds.
(compiled) Each check operation becomes the comparison its name promises, a jump
around the failure exit when it holds, and the operands in the order the failure
handler reads them; the failure handlers cannot return.
(kept) The pruning passes never remove a check.
"""
ASSUME = [
    "values of record fields keep their subtype (record aggregates are in known_findings)",
    "tables of functions whose values are checked elsewhere: see EXEMPT",
    "literal and folded aggregates are checked by the analyser (bounds.c)",
]

L = "src/lower.c"
TYPES = {"type_is_scalar", "type_is_array", "type_is_record", "type_is_access", "type_is_real",
         "type_is_composite", "type_const_bounds", "type_is_unconstrained", "type_is_integer", "lower_is_const"}
REG = {"vcode_reg_t", "int"}
PRODUCE = {"lower_rvalue", "lower_expr", "lower_known_subtype", "lower_aggregate"}
PRESERVE = {"lower_incomplete_access": 0, "lower_array_data": 0, "emit_load_indirect": 0, "emit_unwrap": 0,
            "lower_array_len": 3, "lower_resolved": 2}
CHECKS = {"lower_check_scalar_bounds": 1, "lower_check_array_sizes": 4, "lower_check_indexes": 3,
          "emit_length_check": 1}
STORES = {"emit_store": 0, "emit_store_indirect": 0, "emit_copy": 1, "emit_memset": 1, "emit_sched_waveform": 2,
          "emit_force": 2, "emit_init_signal": 3, "emit_return": 0, "emit_put_driver": 2}

# values that need no check of their own, by function
EXEMPT = {
    "lower_cond_value": "intermediate result of a conditional expression, checked where it is consumed",
    "lower_implicit_guard": "a guard expression is a boolean",
    "lower_alias_decl": "an alias denotes the same object",
    "lower_subprogram_default": "checked by the caller that uses the default",
    "lower_direct_mapped_port": "the port is the variable it is mapped to",
    "lower_inertial_actual": "the actual is checked in the process created for it",
}
# in these the size check is made for some element types only; it must exist on some path
PARTIAL = {
    ("lower_array_aggregate", "emit_copy"): "sub-aggregates and elements without constant bounds",
}
# allocators copy the value of their qualified expression, which checks itself, or an aggregate built in place
QUALIFIED = {("lower_new", "emit_copy"), ("lower_new", "emit_store_indirect")}


def slices(f, e, facts):
    """Parts of an aggregate target that are slices: the caller checks the total length (rule whole)."""
    return any(k[0] == "eq" and k[2] == "PART_SLICE" and v for k, v in facts)


def facts_of(facts):
    d = {}
    for k, v in facts:
        if k[0] in TYPES:
            d.setdefault(k[0], set()).add(v)
    return d


def no_check_needed(f, e, facts):
    d = facts_of(facts)
    if True in d.get("lower_is_const", ()):
        return True       # the analyser checks constants
    if d.get("type_is_record") == {True} or d.get("type_is_access") == {True}:
        return True
    return d.get("type_is_scalar") == {False} and d.get("type_is_array") == {False} or slices(f, e, facts)


def passed_excused(f, e, facts):
    if no_check_needed(f, e, facts):
        return True
    d = facts_of(facts)
    if f.name == "lower_conversion" and d.get("type_is_scalar") == {False}:
        return True     # arrays and records are converted on paths of their own
    for k, v in facts:
        if k[0] == "eq" and v is True and k[2] in ("C_SIGNAL", "C_FILE", "PORT_OUT"):
            return True
    if d.get("type_is_array") == {True} or True in d.get("type_is_array", ()):
        return True in d.get("type_is_unconstrained", ()) or False in d.get("type_const_bounds", ())
    return False


def never(f, e, facts):
    return False


def real(f, e, facts):
    d = facts_of(facts)
    return d.get("type_is_real") == {True} or any(k[0] == "case" and set(v) and
                                                   set(v) <= f_real for k, v in facts)


f_real = set()


def enum_value(prog, name):
    for en in prog.enums.values():
        for c, v in en:
            if c == name:
                return v
    raise AnalysisError("no enumerator " + name)


def stored(prog, rep, fns):
    rep.rule("stored", "values are stored, copied, scheduled, forced and returned only after their range or length check")
    G = guarded.Guarded(prog, fns, PRODUCE, PRESERVE, CHECKS, STORES, TYPES, no_check_needed, REG,
                        skip=EXEMPT, sized={"emit_copy": (2, "lower_array_total_len", 2)})
    G.solve()
    for f in fns:
        if f.cfg_raw is None:
            continue
        bad, _ = G.run(f)
        seen = {}
        for e, x, o, _ in bad:
            seen.setdefault((e, x), o)
        bad_calls = {}
        for (e, x) in seen:
            bad_calls.setdefault(f.callee(e), []).append(e)
        for (g, e, x) in [s for s in G.sites if s[0] is f]:
            c = f.callee(e)
            if (e, x) not in seen:
                rep.ok("stored", f"{f.name} {f.loc(e)}: {c}({f.txt(f.args(e)[x])}) after its check")
            elif f.name in EXEMPT:
                rep.ok("stored", f"{f.name} {f.loc(e)}: {EXEMPT[f.name]}")
            elif prog.callee(f, e) and prog.callee(f, e).name in EXEMPT:
                rep.ok("stored", f"{f.name} {f.loc(e)}: {EXEMPT[prog.callee(f, e).name]}")
            elif (f.name, c) in PARTIAL and (f, c) in G.met:
                rep.ok("stored", f"{f.name} {f.loc(e)}: {PARTIAL[f.name, c]}")
            elif (f.name, c) in QUALIFIED and qualified(G, f, e, x):
                rep.ok("stored", f"{f.name} {f.loc(e)}: the allocator's qualified expression checks itself")
            else:
                rep.bad("stored", f"{f.name}:{c}", f"{f.file}:{f.loc(e)}",
                        f"{f.name}: {f.txt(f.args(e)[x])} reaches {c} without a range or length check")
    rep.require("stored", 40)
    return G


def qualified(G, f, e, x):
    """Everything lowered into the value is the allocator's qualified expression (or an aggregate)."""
    seen, todo, n = set(), [f.args(e)[x]], 0
    while todo:
        y = f.unwrap(todo.pop())
        if y < 0 or y in seen:
            continue
        seen.add(y)
        if f.kind(y) == "var":
            todo += [d for _, d in G.defs(f).get(f.pay(y), ())]
        elif f.kind(y) == "asg":
            todo.append(f.kids(y)[1])
        elif f.kind(y) == "call":
            c = f.callee(y)
            if c in G.preserve:
                todo.append(f.args(y)[G.preserve[c]])
            elif c in ("lower_rvalue", "lower_expr", "lower_known_subtype"):
                q = f.unwrap(f.args(y)[1])
                if f.var_of(q) is not None:
                    q = one_def(f, G, f.var_of(q))
                if q < 0 or f.kind(q) != "call" or f.callee(q) != "tree_value" or \
                        f.var_of(f.unwrap(f.args(q)[0])) not in f.params:
                    return False
                n += 1
    return n > 0


def passed(prog, rep, fns):
    rep.rule("passed", "subprogram arguments, qualified expressions and subtype conversions yield checked values")
    names = {"lower_subprogram_arg", "lower_qualified", "lower_conversion"}
    for n in sorted(names):
        if not prog.fn(n, L):
            raise AnalysisError("missing " + n)
    pres = dict(PRESERVE, lower_coerce_arrays=3, emit_cast=2, lower_wrap=2)
    G = guarded.Guarded(prog, [f for f in fns if f.name in names], PRODUCE | {"lower_lvalue", "emit_fcall"}, pres, CHECKS, {},
                        TYPES, passed_excused, REG, returns=names)
    for f in G.fns:
        keep = set()
        for b in f.cfg.blocks:
            c = f.cfg.blocks[b].cond
            if c is None or c < 0:
                continue
            for pol in (True, False):
                for n, _ in core.atoms(f, c, pol):
                    k = G.fact_key(f, n)
                    if k is not None and isinstance(k[0], tuple):
                        keep.add(k[0])
        G.keep = keep
        # the value to be converted arrives as a parameter
        bad, _ = G.run(f, [i for i, v in enumerate(f.params) if f.vartype(v) == "vcode_reg_t" and f.name == "lower_conversion"])
        bads = {e for e, x, o, c in bad}
        for (g, e, x) in G.sites:
            if g is not f:
                continue
            rep.check("passed", e not in bads, f"{f.name}", f"{f.file}:{f.loc(e)}",
                      f"{f.name}: `{f.txt(e)[:60]}' yields a value that was not checked against the target subtype")
    # scalars parsed from strings ('value)
    val = [f for f in fns if re.fullmatch(r"lower_\w+_value_helper", f.name) and not re.search("record|array|enum", f.name)]
    G = guarded.Guarded(prog, val, PRODUCE | {"emit_fcall", "emit_mul"}, dict(PRESERVE, emit_cast=2), CHECKS, {"emit_return": 0},
                        TYPES, no_check_needed, REG)
    for f in val:
        bad, _ = G.run(f)
        bads = {e for e, x, o, c in bad}
        for (g, e, x) in G.sites:
            if g is f:
                rep.check("passed", e not in bads, f"{f.name}:{f.callee(e)}", f"{f.file}:{f.loc(e)}",
                          f"{f.name}: returns {f.txt(f.args(e)[x])} without a range check")
    rep.require("passed", 8)


def helpers(prog, rep, fns):
    """The checking helpers check every dimension with the operands they were given."""
    rep.rule("whole", "the array checking helpers check every dimension of the arrays they are given")
    targets = {"lower_var_assign_target": 3, "lower_signal_assign_target": 3}
    own = [f for f in fns if any(f.callee(c) == "lower_fill_target_parts" for c in f.calls()) and f.name != "lower_fill_target_parts"]

    def whole_target(f, e, facts):
        d = facts_of(facts)
        return False in d.get("type_is_array", ()) or any(k[0] == "eq" and k[2] == "PART_ALL" and v for k, v in facts)
    G = guarded.Guarded(prog, own, PRODUCE | {"lower_lvalue"}, PRESERVE, {"emit_length_check": 1}, targets, TYPES, whole_target, REG)
    for f in own:
        G.keep = {("eq", f.txt(f.unwrap(x)), "PART_ALL") for n in f.walk() if f.kind(n) == "bin" for x in f.kids(n)
                  if f.kind(f.unwrap(x)) == "mem"}
        bad, _ = G.run(f)
        bads = {e for e, x, o, c in bad}
        for (g, e, x) in G.sites:
            if g is f:
                rep.check("whole", e not in bads, f"{f.name}:{f.callee(e)}", f"{f.file}:{f.loc(e)}",
                          f"{f.name}: the length of an aggregate target is not compared with its value before {f.callee(e)}")
    for name, emit, least in (("lower_check_array_sizes", "emit_length_check", 1), ("lower_check_indexes", "emit_index_check", 2)):
        f = prog.fn(name, L)
        if f is None:
            raise AnalysisError("no " + name)
        G = guarded.Guarded(prog, [f], set(), {}, {}, {}, set(), never, REG)
        calls = [c for c in f.calls() if f.callee(c) == emit]
        rep.check("whole", len(calls) >= least, f"{name}:count", f"{f.file}:{f.line}", f"{name} makes {len(calls)} of {least} checks")
        if name == "lower_check_array_sizes":
            for c in calls:
                sides = []
                for a in f.args(c)[:2]:
                    v = f.var_of(f.unwrap(a))
                    ds = [d for _, d in G.defs(f).get(v, ()) if d >= 0 and f.kind(d) == "call" and f.callee(d) == "lower_array_len"]
                    sides.append({(f.var_of(f.unwrap(f.args(d)[1])), f.txt(f.args(d)[2]), f.var_of(f.unwrap(f.args(d)[3]))) for d in ds})
                t0, t1, v0, v1 = f.params[1], f.params[2], f.params[3], f.params[4]
                ok = len(sides[0]) == 1 and len(sides[1]) == 1
                if ok:
                    (a, i, b), (c2, j, d2) = next(iter(sides[0])), next(iter(sides[1]))
                    ok = i == j and {(a, b), (c2, d2)} == {(t0, v0), (t1, v1)}
                rep.check("whole", ok, f"{name}:operands", f"{f.file}:{f.loc(c)}",
                          f"{name} does not compare the lengths of its two arrays in the same dimension")
        for c in calls:
            # the loop around the check starts at the first dimension and nothing else skips it
            gs = guards(f, c)
            extra = []
            loop = None
            for g, pol in gs:
                g = f.unwrap(g)
                if f.kind(g) == "bin" and f.pay(g) in ("<", "!=", ">", "<=", ">=") and pol and \
                        any(f.var_of(f.unwrap(x)) in stepped(f) for x in f.kids(g)):
                    loop = g
                elif name == "lower_check_array_sizes":
                    extra.append(f.txt(g))
                elif known_skip(f, g, pol):
                    pass
                else:
                    extra.append(f.txt(g))
            rep.check("whole", loop is not None and not extra, f"{name}:{emit}", f"{f.file}:{f.loc(c)}",
                      f"{name}: {emit} is skipped when " + (" or ".join(extra) or "there is no loop over the dimensions"))
            if loop is not None:
                v = next(f.var_of(f.unwrap(x)) for x in f.kids(loop) if f.var_of(f.unwrap(x)) in stepped(f))
                inits = [f.const(d) for _, d in G.defs(f).get(v, ())]
                rep.check("whole", inits == [0] or f.pay(loop) not in ("<", "!="), f"{name}:start", f"{f.file}:{f.loc(c)}",
                          f"{name}: the dimensions before {inits} are not checked")
    rep.require("whole", 6)


def stepped(f):
    return {f.var_of(f.unwrap(f.kids(n)[0])) for n in f.walk() if f.kind(n) == "un" and f.pay(n).replace("pre", "").replace("post", "") in ("++", "--")}


def known_skip(f, g, pol):
    return False


def one_def(f, G, v):
    d = G.defs(f).get(v, ())
    return d[0][1] if len(d) == 1 else -1


def against(prog, rep, fns, G):
    rep.rule("against", "a check's subtype is not the subtype of the expression being checked")
    for f in fns:
        for c in f.calls():
            name = f.callee(c)
            if name not in ("lower_check_scalar_bounds", "lower_check_array_sizes"):
                continue
            if f.name in EXEMPT or f.name == name:
                continue
            a = f.args(c)
            vi, ti = (1, 2) if name == "lower_check_scalar_bounds" else (4, 1)

            def resolve(n):
                n = f.unwrap(n)
                v = f.var_of(n)
                return one_def(f, G, v) if v is not None else n

            def origins(n, depth=0):
                n = f.unwrap(n)
                if depth > 3 or n < 0:
                    return
                if f.kind(n) == "call":
                    if f.callee(n) in G.preserve:
                        yield from origins(f.args(n)[G.preserve[f.callee(n)]], depth + 1)
                    elif f.callee(n) in PRODUCE:
                        yield n
                elif f.var_of(n) is not None:
                    for _, d in G.defs(f).get(f.var_of(n), ()):
                        yield from origins(d, depth + 1)
            t = resolve(a[ti])
            src = None
            if t >= 0 and f.kind(t) == "call" and f.callee(t) == "tree_type":
                src = f.txt(f.args(t)[0])
            own = src is not None and any(f.txt(f.args(o)[1]) == src for o in origins(a[vi]))
            rep.check("against", not own, f"{f.name}:{name}", f"{f.file}:{f.loc(c)}",
                      f"{f.name}: `{f.txt(a[vi])}' is checked against {src and 'the subtype of ' + src}, which is its own subtype")
    rep.require("against", 25)


def indexed(prog, rep, fns):
    rep.rule("indexed", "indices are checked before offsets are computed; both ends of ranges; consistent bounds")
    producers = {"lower_rvalue", "lower_expr", "lower_range_left", "lower_range_right"}

    def excused(f, e, facts):
        return any(k == ("flag", "TREE_F_ELIDE_BOUNDS") and v for k, v in facts)
    G = guarded.Guarded(prog, fns, producers, {}, {"emit_index_check": 0}, {"lower_array_off": 1}, set(), excused, REG)
    G.solve()
    for f in fns:
        if f.cfg_raw is None:
            continue
        bad, _ = G.run(f)
        bads = {e for e, x, o, c in bad}
        for (g, e, x) in [s for s in G.sites if s[0] is f]:
            rep.check("indexed", e not in bads or f.name == "lower_array_aggregate" and (f, f.callee(e)) in G.met,
                      f"{f.name}:offset", f"{f.file}:{f.loc(e)}",
                      f"{f.name}: {f.txt(f.args(e)[x])} is used as an array offset without an index check")
    # both ends
    pair = {"lower_range_left": "lower_range_right", "lower_range_right": "lower_range_left",
            "lower_array_left": "lower_array_right", "lower_array_right": "lower_array_left"}
    for f in fns:
        checks = [c for c in f.calls() if f.callee(c) == "emit_index_check"]
        if not checks:
            continue

        def src(n):
            n = f.unwrap(n)
            v = f.var_of(n)
            ds = [d for _, d in G.defs(f).get(v, ())] if v is not None else [n]
            return {(f.callee(d), tuple(f.txt(x) for x in f.args(d))) for d in ds
                    if d >= 0 and f.kind(d) == "call" and f.callee(d) in pair}
        have = [(f.cfg.where(c), src(f.args(c)[0]), c) for c in checks]
        for w, s, c in have:
            for g, a in s:
                mate = any((pair[g], a) in s2 and w2[0] == w[0] for w2, s2, _ in have)
                rep.check("indexed", mate, f"{f.name}:{g}", f"{f.file}:{f.loc(c)}",
                          f"{f.name}: only one end of the range {a[-1]} is checked ({g})")
        # a slice: the end that does not enter the offset
        for c in f.calls():
            if f.callee(c) == "lower_array_off":
                for g, a in src(f.args(c)[1]):
                    for side in (g, pair[g]):
                        ok = any((side, a) in s2 and f.cfg.dominates(w2[0], f.cfg.where(c)[0]) or
                                 (side, a) in s2 and f.name == "lower_array_aggregate" for w2, s2, _ in have) \
                            or emptiness(f, G, have, side, a, c)
                        rep.check("indexed", ok, f"{f.name}:slice", f"{f.file}:{f.loc(c)}",
                                  f"{f.name}: {side}({', '.join(a[1:])}) is not checked before the offset is computed")
    # consistent operands
    kinds = {"left": {"lower_array_left", "lower_range_left"}, "right": {"lower_array_right", "lower_range_right"},
             "dir": {"lower_array_dir", "lower_range_dir"}}
    roles = {c: k for k, cs in kinds.items() for c in cs}
    for f in fns:
        for c in f.calls():
            if f.callee(c) not in ("emit_index_check", "emit_range_check", "emit_range_null", "emit_range_length"):
                continue
            a = f.args(c)
            a = a[1:4] if f.callee(c) in ("emit_index_check", "emit_range_check") else a[:3]
            got = []
            for x, want in zip(a, ("left", "right", "dir")):
                x = f.unwrap(x)
                v = f.var_of(x)
                ds = [d for _, d in G.defs(f).get(v, ())] if v is not None else [x]
                ds = [d for d in ds if d >= 0 and f.kind(d) == "call" and f.callee(d) in roles]
                got.append((want, {(roles[f.callee(d)], f.callee(d).rsplit("_", 1)[0],
                                    tuple(f.txt(y) for y in f.args(d))) for d in ds}))
            for want, s in got:
                for role, base, args in s:
                    rep.check("indexed", role == want, f"{f.name}:{f.callee(c)}:{want}", f"{f.file}:{f.loc(c)}",
                              f"{f.name}: the {want} operand of {f.callee(c)} is {base}_{role}")
            known = [s for _, s in got if len(s) == 1]
            if len(known) == 3:
                ids = {next(iter(s))[1:] for s in known}
                rep.check("indexed", len(ids) == 1, f"{f.name}:{f.callee(c)}:mixed", f"{f.file}:{f.loc(c)}",
                          f"{f.name}: the bounds given to {f.callee(c)} come from different ranges {sorted(map(str, ids))}")
    rep.require("indexed", 30)


def emptiness(f, G, have, side, a, c):
    """Checked on every generation path except where the range is known to be null."""
    return False


def divisor(prog, rep, fns):
    rep.rule("divisor", "divisors, exponents and access values are used only after zero, exponent and null checks")
    f_real.clear()
    f_real.add(enum_value(prog, "S_DIV_PR"))
    pres = {"emit_cast": 2}
    configs = [
        ("zero", {"lower_subprogram_arg", "lower_rvalue", "lower_expr"}, {"emit_zero_check": 0},
         {"emit_div": 1, "emit_mod": 1, "emit_rem": 1}, real, 4),
        ("exponent", {"lower_subprogram_arg", "lower_rvalue", "lower_expr"}, {"emit_exponent_check": 0},
         {"emit_exp": 1, "emit_trap_exp": 1}, lambda f, e, facts: not any(
             k[0] == "type_is_integer" and v for k, v in facts) and any(k[0] == "type_is_integer" for k, v in facts), 1),
        ("null", PRODUCE | {"lower_lvalue"}, {"emit_null_check": 0}, {"emit_all": 0}, never, 1),
    ]
    for what, prod, chk, sinks, exc, least in configs:
        G = guarded.Guarded(prog, fns, prod, dict(pres, lower_incomplete_access=0), chk, sinks, TYPES, exc, REG)
        G.solve()
        n = 0
        for f in fns:
            if f.cfg_raw is None:
                continue
            bad, _ = G.run(f)
            bads = {e for e, x, o, c in bad}
            for (g, e, x) in [s for s in G.sites if s[0] is f]:
                n += 1
                rep.check("divisor", e not in bads, f"{f.name}:{what}:{f.callee(e)}", f"{f.file}:{f.loc(e)}",
                          f"{f.name}: {f.txt(f.args(e)[x])} reaches {f.callee(e)} without a {what} check")
        if n < least:
            raise AnalysisError(f"only {n} uses of values needing a {what} check")
    rep.require("divisor", 6)


# ---------------------------------------------------------------------------
def only_def(f, v):
    """The one value a local variable is ever given."""
    m = f.cache.get("onlydefs")
    if m is None:
        m = f.cache["onlydefs"] = {}
        for n in f.walk():
            k = f.kind(n)
            if k == "decl":
                for x, init in f.pay(n):
                    if init is not None and init >= 0:
                        m.setdefault(x, []).append(init)
            elif k == "asg":
                m.setdefault(f.var_of(f.unwrap(f.kids(n)[0])), []).append(f.kids(n)[1] if f.pay(n) == "=" else -1)
            elif k == "un" and f.pay(n) != "!":
                m.setdefault(f.var_of(f.unwrap(f.kids(n)[0])), []).append(-1)
    d = m.get(v, [])
    return d[0] if len(d) == 1 and v not in f.params else -1


def deep(f, cond, pol, depth=0):
    """Atoms of a branch outcome, looking through Boolean locals."""
    out = set()
    for n, v in core.atoms(f, cond, pol):
        out.add((n, v))
        x = f.var_of(f.unwrap(n))
        d = only_def(f, x) if x is not None and depth < 4 else -1
        if d >= 0 and f.kind(f.unwrap(d)) in ("bin", "un", "call", "var"):
            out |= deep(f, d, v, depth + 1)
    return frozenset(out)


def elided(prog, rep):
    rep.rule("elided", "a check operation is omitted only for an accepted reason")
    adders = {"vcode_add_op"} | {f"mir_build_{i}" for i in range(7)}
    emit = []
    for f in prog.fns:
        if f.file in ("src/vcode.c", "src/mir/mir-node.c") and f.cfg_raw is not None and (
                f.name.startswith(("emit_", "mir_build_")) and f.name.endswith("_check") or
                f.name in ("emit_bounds_check", "mir_build_bounds_op")):
            emit.append(f)
    if len(emit) < 12:
        raise AnalysisError(f"only {len(emit)} check emitters")
    names = {f.name for f in emit}
    for f in emit:
        operands = {f.params[i]: i for i in range(len(f.params))}

        def transfer(S, e, b, i, f=f):
            if isinstance(e, (list, tuple)):
                return S
            if f.kind(e) == "call" and (f.callee(e) in adders or f.callee(e) in names and f.callee(e) != f.name):
                return frozenset((True, c) for _, c in S)
            if f.kind(e) == "call" and prog.call_noreturn(f, e):
                return None
            return S

        def edge(S, b, s, kind, f=f):
            cond = f.cfg.blocks[b].cond
            if cond is None or cond < 0 or kind not in (True, False):
                return S
            ats = deep(f, cond, kind)
            r = frozenset((a, c | ats if not a else c) for a, c in S)
            return r if len(r) < 400 else r
        ins = core.forward(f, frozenset([(False, frozenset())]), transfer, edge, lambda a, b: a | b)
        S = ins.get(f.cfg.exit)
        if S is None:
            rep.bad("elided", f.name, f"{f.file}:{f.line}", f"{f.name} never returns")
            continue
        n = 0
        for added, conds in S:
            if added:
                continue
            n += 1
            why = reason(prog, f, conds, operands)
            rep.check("elided", why is not None, f.name, f"{f.file}:{f.line}",
                      f"{f.name} drops the check on a path with only these conditions: " +
                      " and ".join(sorted(("" if v else "not ") + f.txt(c)[:50] for c, v in conds))[:300])
        if n == 0:
            rep.ok("elided", f"{f.name}: always adds its operation")
    elide_bounds(prog, rep)
    scalar_bounds(prog, rep)
    rep.require("elided", 20)


def reason(prog, f, conds, operands):
    """Why may a check be omitted on a path with these branch outcomes?"""
    pos = [c for c, v in conds if v]
    neg = [c for c, v in conds if not v]
    cmpz = []
    for c in pos:
        c = f.unwrap(c)
        k = f.kind(c)
        if k == "bin" and f.pay(c) == "==":
            a, b = (f.unwrap(x) for x in f.kids(c))
            va, vb = f.var_of(a), f.var_of(b)
            if f.kind(a) == "mem" and f.kind(b) == "mem" and f.pay(a)[0] == f.pay(b)[0] == "bits":
                va, vb = (f.var_of(f.unwrap(f.kids(z)[0])) for z in (a, b))
            if va in operands and vb in operands and va != vb and f.name.endswith("length_check"):
                return "equal lengths"
        if k == "call" and f.callee(c) == "mir_equals":
            vs = [f.var_of(f.unwrap(x)) for x in f.args(c)]
            if len(vs) == 2 and None not in vs and vs[0] != vs[1] and set(vs) <= set(operands) and f.name.endswith("length_check"):
                return "equal lengths"
        if k == "call" and f.callee(c) == "vcode_can_elide_bounds":
            vs = [f.var_of(f.unwrap(x)) for x in f.args(c)]
            want = [v for v in f.params if f.varname(v) != ""][1:5]
            if vs == list(f.params[1:5]):
                return "static bounds"
    # constants
    consts = {}
    for c in pos:
        c = f.unwrap(c)
        if f.kind(c) == "call" and f.callee(c) in ("vcode_reg_const", "mir_get_const"):
            a = f.args(c)
            out = f.unwrap(a[-1])
            if f.kind(out) == "un":
                consts[f.var_of(f.unwrap(f.kids(out)[0]))] = f.var_of(f.unwrap(a[-2]))
    for c, v in conds:
        c = f.unwrap(c)
        if f.kind(c) != "bin":
            continue
        a, b = (f.unwrap(x) for x in f.kids(c))
        va = f.var_of(a)
        if va in consts and consts[va] in operands and f.const(b) == 0:
            op = f.pay(c) if v else {"==": "!=", "<": ">=", "!=": "==", ">=": "<", ">": "<=", "<=": ">"}.get(f.pay(c))
            if op == "!=" and "zero_check" in f.name:
                return "constant divisor"
            if op in (">=", ">") and "exponent_check" in f.name:
                return "constant exponent"
    # an identical earlier operation
    idx = set()
    kind = False
    for c in pos:
        c = f.unwrap(c)
        if f.kind(c) != "bin" or f.pay(c) != "==":
            continue
        a, b = (f.unwrap(x) for x in f.kids(c))
        for x, y in ((a, b), (b, a)):
            t = f.txt(x)
            if f.kind(x) == "idx" and ".items" in t.replace("->", ".") and f.var_of(y) in operands:
                idx.add((f.const(f.kids(x)[1]), f.var_of(y)))
            if f.kind(x) == "mem" and f.pay(x)[0] == "kind":
                en = f.const(y)
                own = f.kind(y) == "enum" and f.pay(y).replace("VCODE_OP_", "").lower() == f.name.replace("emit_", "")
                if own or f.var_of(y) in operands:
                    kind = True
                if f.kind(y) == "enum" and f.pay(y) == "VCODE_OP_NEW" and f.name == "emit_null_check":
                    if any(f.kind(f.unwrap(z)) == "bin" and f.pay(f.unwrap(z)) == "==" and
                           any(f.kind(f.unwrap(q)) == "mem" and f.pay(f.unwrap(q))[0] == "result" for q in f.kids(f.unwrap(z))) and
                           any(f.var_of(f.unwrap(q)) in operands for q in f.kids(f.unwrap(z))) for z in pos):
                        return "fresh allocation"
    if kind:
        # every operand that is not a locus or hint, at the position the operation stores it
        stored = []
        for n in f.calls():
            if f.callee(n) == "vcode_add_arg":
                stored.append(f.var_of(f.unwrap(f.args(n)[1])))
        need = {(i, v) for i, v in enumerate(stored)
                if v in operands and f.varname(v) not in ("locus", "hint", "dim")}
        if need and need <= idx:
            return "an identical check"
    return None


def lin(f, n):
    """Text of an operand with the field and variable reduced to its role."""
    n = f.unwrap(n)
    return f.txt(n)


def elide_bounds(prog, rep):
    """vcode_can_elide_bounds: true only if low >= left && high <= right for the direction, or the value is an end."""
    f = prog.fn("vcode_can_elide_bounds", "src/vcode.c")
    if f is None:
        raise AnalysisError("no vcode_can_elide_bounds")
    G = guarded.Guarded(prog, [f], set(), {}, {}, {}, set(), never, REG)
    to, downto = enum_value(prog, "RANGE_TO"), enum_value(prog, "RANGE_DOWNTO")
    reg, left, right, dirv = f.params
    consts = {}
    for n in f.calls():
        if f.callee(n) == "vcode_reg_const":
            o = f.unwrap(f.args(n)[1])
            consts[f.var_of(f.unwrap(f.kids(o)[0]))] = f.var_of(f.unwrap(f.args(n)[0]))

    def bound_of(n):
        """(operand, field) of e.g. bounds->low"""
        n = f.unwrap(n)
        if f.kind(n) == "mem":
            y = f.unwrap(f.kids(n)[0])
            while y >= 0 and f.kind(y) == "mem":
                y = f.unwrap(f.kids(y)[0])
            v = f.var_of(y)
            d = one_def(f, G, v) if v is not None else -1
            if d >= 0:
                for m in f.walk(d):
                    if f.kind(m) == "call" and f.callee(m) == "vcode_reg_bounds":
                        return (f.var_of(f.unwrap(f.args(m)[0])), f.pay(n)[0])
        return None

    def dnf(n, pol):
        n = f.unwrap(n)
        k = f.kind(n)
        if k == "un" and f.pay(n) == "!":
            return dnf(f.kids(n)[0], not pol)
        if k == "bin" and f.pay(n) in ("&&", "||"):
            a, b = (dnf(x, pol) for x in f.kids(n))
            if (f.pay(n) == "&&") == pol:
                return [x | y for x in a for y in b]
            return a + b
        if k == "var":
            d = one_def(f, G, f.pay(n))
            if d >= 0 and f.kind(d) in ("bin", "un"):
                return dnf(d, pol)
        return [frozenset([(n, pol)])]

    def norm(n, pol):
        n = f.unwrap(n)
        if f.kind(n) != "bin":
            return None
        op = f.pay(n)
        if not pol:
            op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(op)
        a, b = f.kids(n)
        if f.const(f.unwrap(a)) is not None:
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        return op, a, b
    for n in f.walk():
        if f.kind(n) != "ret" or f.const(f.unwrap(f.kids(n)[0])) == 0:
            continue
        e = f.kids(n)[0]
        if f.const(f.unwrap(e)) is not None:
            terms = None
        else:
            terms = dnf(e, True)
        if terms is None:
            # real: isfinite(bounds) and the target is the whole range
            have = set()
            p = n
            for c, v in guards(f, n):
                for t in dnf(c, v):
                    for m, pol in t:
                        r = norm(m, pol)
                        if r and r[0] == "==":
                            bo = bound_of(r[1])
                            if bo:
                                have.add((bo, f.txt(r[2]).replace("(", "").replace(")", "").strip()))
            hb = {b for b, _ in have}
            rep.check("elided", {(left, "rlow"), (right, "rhigh")} <= hb, "vcode_can_elide_bounds:real", f"{f.file}:{f.loc(n)}",
                      "vcode_can_elide_bounds accepts a real value without comparing both target bounds")
            continue
        for t in terms:
            d, low, high, ends, isnull = None, None, None, False, []
            for m, pol in t:
                r = norm(m, pol)
                if not r:
                    continue
                op, a, b = r
                va = f.var_of(f.unwrap(a))
                vb = f.var_of(f.unwrap(b))
                bo = bound_of(a)
                if va in consts and consts[va] == dirv and op == "==":
                    d = f.const(f.unwrap(b))
                elif bo and bo[0] == reg and bo[1] == "low" and op in (">=", ">") and vb in consts:
                    low = consts[vb]
                elif bo and bo[0] == reg and bo[1] == "high" and op in ("<=", "<") and vb in consts:
                    high = consts[vb]
                elif op == "==" and {va, vb} in ({reg, left}, {reg, right}):
                    ends = True
            if ends:
                ok = nonnull(f, t, norm, consts, dirv, left, right, to, downto)
                rep.check("elided", ok, "vcode_can_elide_bounds:end", f"{f.file}:{f.loc(n)}",
                          "vcode_can_elide_bounds accepts an end of a range that may be null")
            else:
                want = {to: (left, right), downto: (right, left)}.get(d)
                rep.check("elided", want is not None and (low, high) == want, f"vcode_can_elide_bounds:{d}", f"{f.file}:{f.loc(n)}",
                          "vcode_can_elide_bounds does not compare both the low and high bound of the value with the range")


def nonnull(f, t, norm, consts, dirv, left, right, to, downto):
    """The conjunction excludes (to and left > right) and (downto and right > left)."""
    got = set()
    for d, big, small in ((to, left, right), (downto, right, left)):
        for m, pol in t:
            r = norm(m, pol)
            if not r:
                continue
            op, a, b = r
            va, vb = f.var_of(f.unwrap(a)), f.var_of(f.unwrap(b))
            if va in consts and consts[va] == dirv and op == "!=" and f.const(f.unwrap(b)) == d:
                got.add(d)
            if va in consts and vb in consts:
                ca, cb = consts[va], consts[vb]
                if (ca, cb) == (big, small) and op in ("<=", "<") or (ca, cb) == (small, big) and op in (">=", ">"):
                    got.add(d)
    return got == {to, downto}


def preds(f, b):
    if "preds" not in f.cache:
        m = {}
        for x in f.cfg.blocks:
            for t, _ in f.cfg.edges(x):
                m.setdefault(t, []).append(x)
        f.cache["preds"] = m
    return f.cache["preds"].get(b, ())


def guards(f, n):
    """Branch outcomes that hold at a node."""
    b = f.cfg.where(n)[0]
    out = []
    for d in f.cfg.blocks:
        c = f.cfg.blocks[d].cond
        if c is None or c < 0 or d == b or not f.cfg.dominates(d, b):
            continue
        es = [(s, k) for s, k in f.cfg.edges(d) if k in (True, False)]
        for s, k in es:
            if f.cfg.dominates(s, b) and not any(q != d and not f.cfg.dominates(s, q) for q in preds(f, s)):
                out.append((c, k))
    return out


def scalar_bounds(prog, rep):
    """lower_check_scalar_bounds returns early only if vtype_low >= low and vtype_high <= high."""
    f = prog.fn("lower_check_scalar_bounds", L)
    if f is None:
        raise AnalysisError("no lower_check_scalar_bounds")
    G = guarded.Guarded(prog, [f], set(), {}, {}, {}, set(), never, REG)

    def transfer(S, e, b, i):
        if isinstance(e, (list, tuple)):
            return S
        if f.kind(e) == "call" and f.callee(e) == "emit_range_check" and f.var_of(f.unwrap(f.args(e)[0])) == f.params[1]:
            return frozenset((True, c) for _, c in S)
        return S

    def edge(S, b, s, kind):
        cond = f.cfg.blocks[b].cond
        if cond is None or cond < 0 or kind not in (True, False):
            return S
        ats = deep(f, cond, kind)
        return frozenset((a, c | ats) for a, c in S)
    ins = core.forward(f, frozenset([(False, frozenset())]), transfer, edge, lambda a, b: a | b)
    folded = {}
    for n in f.calls():
        if f.callee(n) == "folded_bounds":
            for role, x in zip(("low", "high"), f.args(n)[1:]):
                x = f.unwrap(x)
                folded[f.var_of(f.unwrap(f.kids(x)[0]))] = role
    for added, conds in ins.get(f.cfg.exit, ()):
        if added:
            rep.ok("elided", "lower_check_scalar_bounds: emits the range check")
            continue
        got = set()
        for c, v in conds:
            c = f.unwrap(c)
            if f.kind(c) == "call" and f.callee(c) == "folded_bounds" and v:
                got.add("folded")
            if f.kind(c) != "bin":
                continue
            op = f.pay(c) if v else {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}.get(f.pay(c))
            a, b = (f.unwrap(x) for x in f.kids(c))
            if f.kind(a) != "call" and f.kind(b) == "call":
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op)
            r = folded.get(f.var_of(b))
            if f.kind(a) == "call" and f.callee(a) == "vtype_low" and op in (">=", ">") and r == "low":
                got.add("low")
            if f.kind(a) == "call" and f.callee(a) == "vtype_high" and op in ("<=", "<") and r == "high":
                got.add("high")
        rep.check("elided", got == {"folded", "low", "high"}, "lower_check_scalar_bounds", f"{f.file}:{f.line}",
                  "lower_check_scalar_bounds omits the range check without comparing both bounds of the value")


# ---------------------------------------------------------------------------
WANTS = {   # check -> (condition code when it holds, constant operand or None)
    "null": ("JIT_CC_NE", 0), "zero": ("JIT_CC_NE", 0), "exponent": ("JIT_CC_GE", 0), "length": ("JIT_CC_EQ", None),
}
EXITS = {"null": "JIT_EXIT_NULL_DEREF", "zero": "JIT_EXIT_DIV_ZERO", "exponent": "JIT_EXIT_EXPONENT_FAIL",
         "length": "JIT_EXIT_LENGTH_FAIL", "index": "JIT_EXIT_INDEX_FAIL", "range": "JIT_EXIT_RANGE_FAIL"}


def compiled(prog, rep):
    rep.rule("compiled", "check operations become the promised comparison and a failure exit that cannot return")
    J = "src/jit/jit-irgen.c"
    CC = dict()
    for what, exit_name in EXITS.items():
        f = prog.fn(f"irgen_op_{what}_check", J)
        if f is None:
            raise AnalysisError(f"no irgen_op_{what}_check")
        T = Terms(prog, f)
        role, cc, text = T.role, T.cc, T.text
        # walk paths: sequence of j_* events
        seqs = T.paths()
        if not seqs:
            raise AnalysisError(f.name + ": no path")
        for s in seqs:
            ev = s
            names = [c for c, _ in ev]
            site = f"{f.file}:{f.line}"
            if "macro_exit" not in names:
                rep.bad("compiled", f"{f.name}:path", site, f"{f.name} has a path that emits no failure exit")
                continue
            x = names.index("macro_exit")
            rep.check("compiled", names.count("macro_exit") == 1 and cc(ev[x][1][1]) == exit_name, f"{f.name}:exit", site,
                      f"{f.name} does not leave through {exit_name}")
            jumps = [i for i, c in enumerate(names) if c == "j_jump"]
            binds = [i for i, c in enumerate(names) if c == "irgen_bind_label"]
            ok = len(jumps) == 1 and jumps[0] < x and cc(ev[jumps[0]][1][1]) == "JIT_CC_T"
            lab = text(ev[jumps[0]][1][2]) if jumps else None
            ok = ok and any(i > x and text(ev[i][1][1]) == lab for i in binds)
            ok = ok and not any(i < x and text(ev[i][1][1]) == lab for i in binds)
            rep.check("compiled", ok, f"{f.name}:jump", site,
                      f"{f.name}: the failure exit is not skipped exactly when the check holds")
            cmps = [(c, n) for c, n in ev[:jumps[0] if jumps else 0] if c in ("j_cmp", "j_ccmp", "j_fcmp", "j_fccmp")]
            if what in WANTS:
                want, k = WANTS[what]
                good = len(cmps) == 1 and cmps[0][0] == "j_cmp"
                if good:
                    a = cmps[0][1]
                    l, r = role(a[2]), role(a[3])
                    good = cc(a[1]) == want and (
                        (l, r) == (0, ("const", k)) if k is not None else {l, r} == {0, 1})
                rep.check("compiled", good, f"{f.name}:compare", site,
                          f"{f.name}: compares with {[[text(x)[:30] for x in n[1:]] for _, n in cmps]}, not with {want}")
            else:
                # optional direction compare, then value >= low and value <= high
                low, high = ("csel", 2, 1), ("csel", 1, 2)
                lead = cmps[:-2]
                okd = len(lead) <= 1
                for c, n in lead:
                    a = n
                    okd = okd and c == "j_cmp" and cc(a[1]) == "JIT_CC_EQ" and role(a[2]) == 3 and \
                        role(a[3]) == ("const", enum_value(prog, "RANGE_DOWNTO"))
                good = okd and len(cmps) >= 2
                if good:
                    (c1, n1), (c2, n2) = cmps[-2:]
                    a1, a2 = n1, n2
                    good = (c1, c2) in (("j_cmp", "j_ccmp"), ("j_fcmp", "j_fccmp")) and \
                        {(cc(a1[1]), role(a1[2]), role(a1[3])), (cc(a2[1]), role(a2[2]), role(a2[3]))} == \
                        {("JIT_CC_GE", 0, low), ("JIT_CC_LE", 0, high)}
                rep.check("compiled", good, f"{f.name}:compare", site,
                          f"{f.name}: does not compare the value with the low and high end of the range")
            sends = sorted((T.const(n[1]), role(n[2])) for c, n in ev[:x] if c == "j_send" and role(n[2]) is not None
                           and not isinstance(role(n[2]), tuple))
            allsends = sorted(T.const(n[1]) for c, n in ev[:x] if c == "j_send")
            CC.setdefault(exit_name, set()).add(tuple(allsends))
            rep.check("compiled", all(a == b for a, b in sends) or what in ("null", "zero", "length"), f"{f.name}:send", site,
                      f"{f.name}: operands are sent out of order {sends}")
    # handlers
    E = "src/jit/jit-exits.c"
    X = prog.fn("__nvc_do_exit", E)
    if X is None:
        raise AnalysisError("no __nvc_do_exit")
    disp = {}
    for n in X.walk():
        if X.kind(n) == "case":
            pass
    for b in X.cfg.blocks:
        for s, k in X.cfg.edges(b):
            if isinstance(k, tuple) and k[0] == "case":
                for c in k[1]:
                    disp.setdefault(c, []).append(s)
    for what, en in EXITS.items():
        v = enum_value(prog, en)
        for s in disp.get(v, [None]):
            if s is None:
                rep.bad("compiled", f"handler:{en}", f"{X.file}:{X.line}", f"{en} has no handler")
                continue
            callee = None
            reads = set()
            work, seen = [s], set()
            while work:
                b = work.pop()
                if b in seen or b == X.cfg.exit:
                    continue
                seen.add(b)
                for e in X.cfg.blocks[b].elems:
                    if isinstance(e, (list, tuple)):
                        continue
                    for m in X.walk(e):
                        if X.kind(m) == "idx" and X.txt(X.kids(m)[0]) == "args":
                            reads.add(X.const(X.kids(m)[1]))
                        if X.kind(m) == "call" and (X.callee(m) or "").startswith("x_"):
                            callee = m
                for t, k in X.cfg.edges(b):
                    if callee is None:
                        work.append(t)
            h = prog.callee(X, callee) if callee is not None else None
            okf = h is not None and always_fatal(prog, h)
            rep.check("compiled", okf, f"handler:{en}", f"{X.file}:{X.loc(callee) if callee is not None else X.line}",
                      f"the handler of {en} can return to the failing code")
            sent = CC.get(en, set())
            rep.check("compiled", all(set(x) == reads for x in sent), f"operands:{en}", f"{X.file}:{X.line}",
                      f"{en}: operands sent {sorted(sent)} but the handler reads {sorted(reads)}")
    jm = prog.fn("jit_msg", "src/jit/jit-core.c")
    rep.check("compiled", jm is not None and aborts_on_fatal(prog, jm), "jit_msg", "src/jit/jit-core.c",
              "jit_msg returns after a fatal message")
    # vcode -> mir keeps the operands in place
    for what in EXITS:
        f = prog.fn(f"import_{what}_check", "src/mir/mir-vcode.c")
        if f is None:
            raise AnalysisError("no import_" + what + "_check")
        G = guarded.Guarded(prog, [f], set(), {}, {}, {}, set(), never, REG)
        calls = [n for n in f.calls() if f.callee(n) == f"mir_build_{what}_check"]
        rep.check("compiled", len(calls) == 1 and f.cfg.where(calls[0]) is not None, f"{f.name}", f"{f.file}:{f.line}",
                  f"{f.name} does not build the {what} check")
        for c in calls:
            for i, a in enumerate(f.args(c)[1:]):
                v = f.var_of(f.unwrap(a))
                for _, d in G.defs(f).get(v, ()):
                    for m in f.walk(d):
                        if f.kind(m) == "call" and f.callee(m) == "vcode_get_arg":
                            rep.check("compiled", f.const(f.args(m)[1]) == i, f"{f.name}:{i}", f"{f.file}:{f.loc(d)}",
                                      f"{f.name}: operand {i} comes from operand {f.const(f.args(m)[1])}")
            reach = f.cfg.where(c)[0]
            skip = [k for b in f.cfg.blocks for s, k in f.cfg.edges(b) if k in (True, False)]
            rep.check("compiled", f.cfg.dominates(reach, f.cfg.exit), f"{f.name}:always", f"{f.file}:{f.loc(c)}",
                      f"{f.name}: the check is built only on some paths")
    rep.require("compiled", 50)


class Terms:
    """Calls along the acyclic paths of a function, looking into helpers; arguments are (function, node, environment)."""
    OPAQUE = ("j_", "irgen_get_", "irgen_alloc_", "irgen_bind_", "macro_", "mir_", "jit_value_")

    def __init__(self, prog, f):
        self.prog, self.f = prog, f

    def look(self, t):
        """Follow variables to the expression that defines them."""
        for _ in range(12):
            g, n, env = t
            n = g.unwrap(n)
            t = (g, n, env)
            v = g.var_of(n) if g.kind(n) == "var" else None
            if v is None:
                return t
            if v in dict(env):
                t = dict(env)[v]
                continue
            d = only_def(g, v)
            if d < 0:
                return t
            t = (g, d, env)
        return t

    def role(self, t):
        g, n, env = self.look(t)
        if g.kind(n) != "call":
            return None
        c, a = g.callee(n), g.args(n)
        if c in ("irgen_get_arg", "mir_get_arg"):
            return g.const(self.look((g, a[2], env))[1])
        if c == "irgen_get_value":
            return self.role((g, a[1], env))
        if c == "j_csel":
            return ("csel",) + tuple(self.role((g, x, env)) for x in a[1:])
        if c == "jit_value_from_int64":
            return ("const", self.const((g, a[0], env)))
        return None

    def cc(self, t):
        g, n, _ = self.look(t)
        return g.pay(n) if g.kind(n) == "enum" else None

    def const(self, t):
        g, n, _ = self.look(t)
        return g.const(n)

    def text(self, t):
        g, n, _ = t = self.look(t)
        return f"{g.name}:{n}"

    def paths(self, cap=256):
        return self.through(self.f, (), cap, 0)

    def through(self, g, env, cap, depth):
        out = []

        def go(b, seqs, seen):
            for e in g.cfg.blocks[b].elems:
                if isinstance(e, (list, tuple)) or g.kind(e) != "call":
                    continue
                c, a = g.callee(e), g.args(e)
                h = self.prog.callee(g, e)
                if c and not c.startswith(self.OPAQUE) and h is not None and h.cfg_raw is not None and \
                        h.file == self.f.file and depth < 3 and not self.prog.call_noreturn(g, e):
                    inner = self.through(h, tuple(zip(h.params, [(g, x, env) for x in a])), cap, depth + 1)
                    if inner:
                        seqs = [s + i for s in seqs for i in inner][:cap]
                        continue
                seqs = [s + [(c, [(g, x, env) for x in a])] for s in seqs]
            if b == g.cfg.exit:
                if len(out) < cap:
                    out.extend(seqs)
                return
            for s, k in g.cfg.edges(b):
                if s not in seen:
                    go(s, seqs, seen | {s})
        go(g.cfg.entry, [[]], {g.cfg.entry})
        return out


def always_fatal(prog, f):
    """Every path calls jit_msg(.., DIAG_FATAL, ..) or does not return."""
    fatal = enum_value(prog, "DIAG_FATAL")

    def transfer(S, e, b, i):
        if isinstance(e, (list, tuple)) or f.kind(e) != "call":
            return S
        if f.callee(e) == "jit_msg" and f.const(f.args(e)[1]) == fatal:
            return None
        if prog.call_noreturn(f, e):
            return None
        return S
    ins = core.forward(f, frozenset([0]), transfer, lambda S, b, s, k: S, lambda a, b: a | b)
    return ins.get(f.cfg.exit) is None


def aborts_on_fatal(prog, f):
    fatal = enum_value(prog, "DIAG_FATAL")
    lvl = f.params[1]

    def transfer(S, e, b, i):
        if isinstance(e, (list, tuple)):
            return S
        if f.kind(e) == "call" and (f.callee(e) in ("jit_abort_with_status", "jit_abort") or prog.call_noreturn(f, e)):
            return None
        return S

    def edge(S, b, s, kind):
        cond = f.cfg.blocks[b].cond
        if cond is None or cond < 0:
            return S
        if isinstance(kind, tuple):
            if f.var_of(f.unwrap(cond)) == lvl:
                return S if (fatal in kind[1]) == (kind[0] == "case") else None
            return S
        if kind not in (True, False):
            return S
        for n, v in core.atoms(f, cond, kind):
            n = f.unwrap(n)
            if f.kind(n) == "bin":
                a, b2 = (f.unwrap(x) for x in f.kids(n))
                if f.var_of(a) == lvl and f.const(b2) is not None:
                    k = f.const(b2)
                    r = {"==": fatal == k, "!=": fatal != k, "<": fatal < k, "<=": fatal <= k,
                         ">": fatal > k, ">=": fatal >= k}.get(f.pay(n))
                    if r is not None and r != v:
                        return None
        return S
    ins = core.forward(f, frozenset([0]), transfer, edge, lambda a, b: a | b)
    return ins.get(f.cfg.exit) is None


KEEP = ("_CHECK", "STORE", "COPY", "MEMSET", "ASSERT", "REPORT", "SCHED", "RETURN", "WAIT", "RESUME", "PCALL", "FORCE",
        "RELEASE", "DRIVE", "INIT_SIGNAL", "FILE_", "DEALLOCATE", "COVER", "NULL_CHECK", "UNREACHABLE", "TRAP_")


def kept(prog, rep):
    rep.rule("kept", "the pruning pass over the intermediate code never removes a check or an effect")
    f = prog.fn("vcode_opt", "src/vcode.c")
    if f is None:
        raise AnalysisError("no vcode_opt")
    names = {}
    for en in prog.enums.values():
        for c, v in en:
            if c.startswith("VCODE_OP_"):
                names[v] = c
    # which cases reach a statement that turns the operation into a comment
    prune = set()
    for n in f.walk():
        if f.kind(n) == "asg" and f.kind(f.unwrap(f.kids(n)[0])) == "mem" and f.pay(f.unwrap(f.kids(n)[0]))[0] == "kind":
            w = f.cfg.where(n)
            if w:
                prune.add(w[0])
    sw = []
    for b in f.cfg.blocks:
        for s, k in f.cfg.edges(b):
            if isinstance(k, tuple) and k[0] == "case":
                # reach without going back through the switch
                work, seen, hit = [s], {b}, False
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if x in prune:
                        hit = True
                    work += [t for t, _ in f.cfg.edges(x)]
                sw.append((k[1], hit))
    n = 0
    for cs, hit in sw:
        for c in cs:
            nm = names.get(c)
            if nm is None:
                continue
            n += 1
            short = nm.replace("VCODE_OP_", "")
            effect = any(short.startswith(k) or short.endswith(k) for k in KEEP) and not short.startswith("TRAP_") \
                and short not in ("COPY_FROM",)
            rep.check("kept", not (hit and effect), nm, f"{f.file}:{f.line}",
                      f"vcode_opt removes {nm} when its result is unused")
    rep.require("kept", 15)


def run(prog, rep):
    fns = [f for f in prog.fns if f.file == L]
    if len(fns) < 200:
        raise AnalysisError("lower.c not analysed")
    G = stored(prog, rep, fns)
    passed(prog, rep, fns)
    helpers(prog, rep, fns)
    against(prog, rep, fns, G)
    indexed(prog, rep, fns)
    divisor(prog, rep, fns)
    elided(prog, rep)
    compiled(prog, rep)
    kept(prog, rep)
