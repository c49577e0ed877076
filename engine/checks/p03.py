"""P03: errors are reported, counted and stop the design -- never lost."""
import balance
import core
import gate
import silent
from facts import AnalysisError

WANT = None
EXPLAIN = """
(emitted) Every diagnostic object is followed from the call that creates it:
on every path it is emitted or handed to something that emits it.
(explained) In the semantic checker, `return false' -- including results
accumulated in locals and returned from other checkers -- is only reached on
paths that reported an error, that called a checker which did, or that follow a
fact only an earlier error explains (an error type, a missing reference).
(marker) Those facts are established only after an error: every creation of an
error type, error range or error expression and every setting of an
error-suppression flag has an error reported before it or on every path after it.
(gated) Saving a unit as good, lowering, global optimisation and handing out the
elaborated design happen only where the error count was tested since the last
call that can report an error; the same for continuing with the next command
and for success exit codes in each command of the tool.
(counted) Emitting a diagnostic always increments its level's counter unless it
is suppressed; the reporting entry points use the levels their names promise; the
fatal ones end in a failing exit; simulation exit status comes from the
model on every path of the run command.
"""
ASSUME = [
    "parse errors suppressed during token recovery follow a reported one",
    "an error type, missing reference or missing primary unit found in the tree is explained by rule marker",
    "errors reported inside plug-ins, Tcl scripts and at run time are not counted as design errors",
]
DIAGS = {"diag_new": None, "_pedantic_diag": 0}
EMIT = {"diag_emit": 0, "diag_femit": 0}
FILES = ("src/sem.c", "src/names.c", "src/parse.c", "src/common.c", "src/type.c")

# Facts that exist only after a reported error: calls whose given result says so
EXCUSE_CALL = {("type_is_none", True), ("tree_has_ref", False), ("tree_has_type", False),
               ("tree_has_primary", False)}
# never NULL / never fail
TOTAL = {"tree_type", "tree_new", "type_new", "tree_value", "tree_ref", "type_base_recur", "tree_name",
         "tree_primary"}
# (function, callee, truth): facts the parser guarantees follow an error there
LOCAL = {
    ("sem_check_subprogram_inst", "tree_generics", False), ("sem_check_pack_inst", "tree_generics", False),
    ("sem_check_concurrent", "tree_stmts", False), ("sem_check_array_ref", "type_is_array", False),
    ("p_record_element_constraint", "type_is_record", False),
    ("sem_check_driving", "name_to_ref", False), ("sem_check_attr_ref", "tree_has_value", False),
}
# (function, enum constant) equality facts likewise
LOCAL_EQ = {("sem_check_discrete_range", "RANGE_ERROR", True), ("sem_check_record_aggregate", "T_FIELD_DECL", False),
            ("array_aggregate_type", None, None)}
# (function, case label or "default")
LOCAL_CASE = {("sem_check_ref", "C_DEFAULT"), ("sem_check_case", "default")}
QUIET = {"sem_check_closely_related": 2}       # reports only if this argument is given
# functions taken as reporting whenever they fail, and markers explained elsewhere
TRUSTED = {"resolve_name": "all silent exits follow the suppression flags; two of its conditions are correlated",
           "error_expr": "its calls are checked instead"}
MARKER_OK = {
    "error_expr": "its calls are checked instead",
    "array_aggregate_type": "too few index constraints are reported when the subtype indication is parsed",
    "suppress_errors": "its calls are checked instead",
    "resolve_name": "follows an error or the suppression of one (correlated conditions)",
    "p_range": "initial value, replaced unless a token is missing, which is reported",
    "map_generic_type": "the actual's class mismatch is reported by the check of the generic map",
    "p_psl_param_spec": "sequence and property parameters have no type",
}


def eq_const(f, n):
    """(other operand, enum constant name) of a comparison with a constant."""
    a, b = (f.unwrap(x) for x in f.kids(n))
    for x, y in ((a, b), (b, a)):
        if f.kind(y) == "enum":
            return x, f.pay(y)
    return None, None


def excuse(S, f, n, val):
    k = f.kind(n)
    if k == "var":
        return not val and f.name in QUIET and f.pay(n) == f.params[QUIET[f.name]]
    if k == "call":
        c = f.callee(n)
        if (c, val) in EXCUSE_CALL or (f.name, c, val) in LOCAL:
            return True
        if not val and c in TOTAL:
            return True
        if val and c == "type_set_any":
            return any(f.kind(f.unwrap(a)) == "fn" and f.pay(f.unwrap(a)) == "type_is_none" for a in f.args(n))
        return False
    if k == "mem" and val and f.pay(n)[0] in ("suppress", "error"):
        return True
    if k == "idx" and not val:
        return True
    if k == "bin":
        op = f.pay(n)
        names = set()
        for x in f.walk(n):
            if f.kind(x) == "var":
                names.add(f.varname(f.pay(x)))
            elif f.kind(x) == "mem":
                names.add(f.pay(x)[0])
            elif f.kind(x) == "call":
                names.add(f.callee(x))
            elif f.kind(x) == "enum":
                names.add(f.pay(x))
        if "n_correct" in names and op in (">=", ">"):
            return not val
        if "error_count" in names and op in (">", "!="):
            return val
        if op == "&" and "N_ERROR" in names:
            return val
        if op in ("==", "!="):
            truth = val == (op == "==")
            if "well_known" in names and "W_ERROR" in names or "error_marker" in names:
                return truth
            x, c = eq_const(f, n)
            if c is not None and (f.name, c, truth) in LOCAL_EQ:
                return True
            z = f.unwrap(f.kids(n)[0])
            if f.const(f.kids(n)[1]) == 0 and f.kind(z) == "call" and (f.name, f.callee(z), not truth) in LOCAL:
                return True
    return False


class Checkers(silent.Silent):
    def excuse_case(self, f, cond, kind):
        c = f.unwrap(cond)
        while c >= 0 and f.kind(c) == "asg":
            c = f.unwrap(f.kids(c)[1])
        if c >= 0 and f.kind(c) == "call" and f.callee(c) == "_one_of":
            # the token was none of those expected
            want = {f.const(a) for a in f.args(c)[1:]} - {-1}
            return kind[0] == "notcase" and want <= set(kind[1]) or kind[0] == "case" and not want & set(kind[1])
        if kind[0] == "notcase":
            return (f.name, "default") in LOCAL_CASE
        names = {fn for fn, c in LOCAL_CASE if fn == f.name}
        if not names:
            return False
        for fn, c in LOCAL_CASE:
            if fn == f.name and self.value(c) is not None and self.value(c) in kind[1]:
                return True
        return False

    def value(self, c):
        for e, cs in self.prog.enums.items():
            for a, b in cs:
                if a == c:
                    return b
        return None

    def elem(self, f, e, st):
        st = silent.Silent.elem(self, f, e, st)
        if not st[0] and not isinstance(e, (list, tuple)) and f.kind(e) == "call" and f.callee(e) == "_one_of":
            # where the next token is already known to be something else
            want = {f.const(a) for a in f.args(e)[1:]} - {-1}
            at = f.cfg.where(e)[0]
            pre = [(b, k) for b in f.cfg.blocks for s, k in f.cfg.edges(b) if s == at] if at is not None else []
            if pre and all(isinstance(k, tuple) and k[0] == "notcase" and want <= set(k[1])
                           and any(f.callee(c) == "peek_nth" for c in f.walk(f.cfg.blocks[b].cond)
                                   if f.kind(c) == "call") for b, k in pre):
                return (True, st[1], st[2])
        return st

    def checker(self, f, n):
        if f.callee(n) in TRUSTED:
            return True
        return silent.Silent.checker(self, f, n)


def enum_value(prog, name):
    for e, cs in prog.enums.items():
        for a, b in cs:
            if a == name:
                return b
    raise AnalysisError("no enumeration constant %s" % name)


def run(prog, rep):
    rep.rule("emitted", "a diagnostic that is created is emitted on every path")
    rep.rule("explained", "a check refuses its subject only after an error was reported")
    rep.rule("marker", "error markers and suppression flags are set only where an error is reported")
    rep.rule("gated", "work that presumes a correct design follows a test of the error count")
    rep.rule("counted", "reported errors are counted and turn into a failing exit status")
    core.Program.enums_value = lambda self, n: enum_value(self, n)

    # -- every diagnostic is emitted
    T = balance.Takes(prog, EMIT, ("diag_t *", "struct _diag *"))
    for f in prog.fns:
        if f.cfg_raw is None or f.file == "src/diag.c" and f.name == "_pedantic_diag":
            continue
        for c in f.calls():
            if f.callee(c) not in DIAGS:
                continue
            O = balance.Owned(prog, T, f, c, DIAGS)
            bad = sorted({f.loc(x) if x >= 0 else "%s (end of function)" % f.loc(f.body)
                          for d, r, x in O.analyse(f) if d > 0})
            rep.check("emitted", not bad, "%s" % f.name, f.loc(c),
                      "the diagnostic created in %s is never emitted on the path leaving at %s" % (f.name, ", ".join(bad)))
    rep.require("emitted", 150)

    # -- no silent refusals
    fns = [f for f in prog.fns if f.file in FILES]
    S = Checkers(prog, fns, excuse, reporters=("_expect",))
    S.quiet = QUIET
    S.always_reports(fns)
    keep = {f for f in S.reporting([f for f in fns if f.file == "src/sem.c"]) if S.kind(f) == "bool"}
    S.solve(keep)
    for f in sorted(keep, key=lambda f: f.line):
        for x in S.bad.get(f, ()):
            rep.bad("explained", "%s" % f.name, f.loc(x),
                    "%s refuses at %s on a path where no error was reported" % (f.name, f.loc(x)))
        for x in range(len([n for n in f.walk() if f.kind(n) == "ret"]) - len(S.bad.get(f, ()))):
            rep.ok("explained", f.loc(f.body))
    rep.count("checkers", len(keep))
    if len(keep) < 90:
        raise AnalysisError("only %d checking functions found" % len(keep))
    rep.require("explained", 500)

    # -- error markers follow errors
    none, rerr = enum_value(prog, "T_NONE"), enum_value(prog, "RANGE_ERROR")
    for f in fns:
        if f.cfg_raw is None:
            continue
        sites = []
        for n in f.walk():
            k = f.kind(n)
            if k == "call":
                c, a = f.callee(n), f.args(n)
                if c == "type_new" and f.const(a[0]) == none and "T_NONE" in f.txt(a[0]) + "T_NONE":
                    sites.append((n, "the error type created"))
                elif c == "tree_set_subkind" and f.const(a[1]) == rerr and f.kind(f.unwrap(a[1])) == "enum" \
                        and f.pay(f.unwrap(a[1])) == "RANGE_ERROR":
                    sites.append((n, "the error range made"))
                elif c == "suppress_errors":
                    sites.append((n, "the suppression of errors"))
                elif c == "error_expr":
                    sites.append((n, "the error expression made"))
            elif k == "asg":
                l, r = f.kids(n)
                m = f.unwrap(l)
                if f.kind(m) == "mem" and f.pay(m)[0] in ("suppress", "error") and f.const(r) == 1:
                    sites.append((n, "the suppression flag set"))
                elif f.pay(n) == "|=" and any(f.kind(x) == "enum" and f.pay(x) == "N_ERROR" for x in f.walk(r)):
                    sites.append((n, "the error mark set"))
        for n, what in sites:
            if f.name in MARKER_OK:
                continue
            rep.check("marker", S.before_or_after(f, n), "%s" % f.name, f.loc(n),
                      "%s at %s in %s hides later errors, but none was reported" % (what, f.loc(n), f.name))
    rep.require("marker", 60)

    # -- gates
    err = enum_value(prog, "DIAG_ERROR")

    def direct(f):
        for c in f.calls():
            n = f.callee(c)
            if n in ("error_at", "errorf", "_pedantic_diag"):
                return True
            if n == "diag_new" and f.const(f.args(c)[0]) == err:
                return True
        return False
    elab = {"lower_process": "lowering", "lower_instance": "lowering", "psl_lower_directive": "lowering"}
    ana = {"lib_put": "saving the unit as good", "lib_put_vlog": "saving the unit as good"}
    G1 = gate.Gate(prog, direct, elab, ("src/elab.c",))
    G2 = gate.Gate(prog, direct, ana, ("src/common.c",))
    inputs = {"analyse_file", "do_file_list", "parse", "vlog_parse", "vlog_preprocess", "elab",
              "cover_load_exclude_file", "vlog_check", "psl_check", "simplify_local", "bounds_check"}
    cmd = {"lib_save": "saving the library", "cgen": "generating code", "model_run": "simulating",
           "process_command": "the next command"}
    G3 = gate.Gate(prog, lambda f: f.name in inputs, cmd, ("src/nvc.c",))
    for f in prog.in_file("src/nvc.c"):
        if f.name in ("process_command", "main"):
            G3.prod.discard(f)
    for name, G, least in (("elaboration", G1, 8), ("analysis", G2, 2), ("commands", G3, 10)):
        bad = G.solve()
        n = 0
        for f in prog.fns:
            if f.file not in G.within or f.cfg_raw is None:
                continue
            badset = {e: (w, s) for g, e, w, s in bad if g is f}
            for c in f.calls():
                w = G.wants(f, c)
                if not w:
                    continue
                n += 1
                if c in badset:
                    w, s = badset[c]
                    rep.bad("gated", "%s:%s" % (f.name, f.callee(c)), f.loc(c),
                            "%s at %s in %s is reached without testing whether %s, called at %s, reported errors"
                            % (w, f.loc(c), f.name, f.callee(s), f.loc(s)))
                else:
                    rep.ok("gated", f.loc(c))
            if name == "commands" and f.ret == "int":
                # a success status is an obligation too
                n += returns_success(prog, rep, G, f)
        if n < least:
            raise AnalysisError("only %d gated operations found in %s" % (n, name))
    # the elaborated design is handed out only if there were no errors
    f = prog.fn("elab", "src/elab.c")
    G1 = gate.Gate(prog, lambda g: g.name in ("elab_vhdl_root_cb", "elab_verilog_root_cb"), {}, ("src/elab.c",))
    if not any(G1.produces(f, c) for c in f.calls()):
        raise AnalysisError("elab does not elaborate the design units")
    _, ins = G1.run(f, "clean")
    for n in f.walk():
        if f.kind(n) == "ret" and f.kids(n) and not core.is_null(f, f.kids(n)[0]):
            rep.check("gated", state_at(G1, f, n, ins) == "clean", "elab:return", f.loc(n),
                      "the elaborated design is returned at %s although errors may have been reported" % f.loc(n))
    rep.require("gated", 30)
    counted(prog, rep)
    rep.require("counted", 14)


def state_at(G, f, node, ins):
    b, i = f.cfg.where(node)
    if b not in ins:
        return "clean"
    st = ins[b]
    for e in f.cfg.blocks[b].elems[:i]:
        if not isinstance(e, (list, tuple)) and f.kind(e) == "call" and G.produces(f, e):
            st = ("call", e)
    return st


def returns_success(prog, rep, G, f):
    _, ins = G.run(f, "clean")
    n = 0
    for r in f.walk():
        if f.kind(r) != "ret" or not f.kids(r):
            continue
        e = f.unwrap(f.kids(r)[0])
        vals = [e]
        if f.kind(e) == "cond":
            vals = [f.unwrap(x) for x in f.kids(e)[1:]]
            # the operand chosen when no error was reported
            if G.clean_edge(f, f.kids(e)[0], False):
                vals = vals[:1]
            elif G.clean_edge(f, f.kids(e)[0], True):
                vals = vals[1:]
        if not any(f.const(v) == 0 for v in vals):
            continue
        n += 1
        st = state_at(G, f, r, ins)
        rep.check("gated", st == "clean", "%s:exit" % f.name, f.loc(r),
                  "%s reports success at %s without testing whether %s reported errors"
                  % (f.name, f.loc(r), f.callee(st[1]) if st != "clean" else ""))
    return n


def must_call(prog, f, pred, upto=None):
    """Does every path from entry to exit satisfy pred at some element?"""
    def transfer(st, e, b, i):
        if st or pred(e):
            return True
        if not isinstance(e, (list, tuple)) and f.kind(e) == "call" and prog.call_noreturn(f, e):
            return None
        return st
    ins = core.forward(f, False, transfer, None, lambda a, b: a and b)
    return ins.get(f.cfg.exit, True)


def counted(prog, rep):
    level = {n: v for n, v in prog.enums["diag_level_t"]}
    for name, want in (("error_at", "DIAG_ERROR"), ("errorf", "DIAG_ERROR"), ("fatal_at", "DIAG_FATAL"),
                       ("fatal", "DIAG_FATAL"), ("fatal_trace", "DIAG_FATAL"), ("fatal_errno", "DIAG_FATAL")):
        f = prog.fn(name, "src/util.c")
        news = list(f.calls("diag_new"))
        ok = bool(news) and all((f.const(f.args(c)[0]) or 0) >= level[want] for c in news)
        rep.check("counted", ok, "%s:level" % name, f.loc(f.body),
                  "%s does not create its diagnostic with level %s" % (name, want))
        if want == "DIAG_FATAL":
            def dead(e, f=f):
                if isinstance(e, (list, tuple)) or f.kind(e) != "call":
                    return False
                return f.callee(e) in ("fatal_exit", "exit", "_exit", "abort") and \
                    (f.callee(e) == "abort" or f.const(f.args(e)[0]) not in (0, None))
            bad = [c for c in f.calls() if f.callee(c) in ("fatal_exit", "exit", "_exit")
                   and f.const(f.args(c)[0]) in (0, None)]
            has = [c for c in f.calls() if dead(c)]
            rep.check("counted", has and not bad, "%s:exit" % name, f.loc(f.body),
                      "%s does not end in a failing exit status" % name)
    f = prog.fn("fatal_exit", "src/util.c")
    for c in f.calls():
        if f.callee(c) in ("exit", "_exit"):
            a = f.args(c)[0]
            rep.check("counted", f.var_of(a) == f.params[0] or f.const(a) not in (0, None), "fatal_exit", f.loc(c),
                      "fatal_exit does not pass its status on")
    # emitting counts: every path of diag_femit either increments the level's counter or is the suppressed one
    f = prog.fn("diag_femit", "src/diag.c")
    d = f.params[0]

    def increments(e):
        if isinstance(e, (list, tuple)):
            return False
        for x in f.walk(e):
            if f.kind(x) == "idx" and f.txt(x).startswith("n_diags["):
                p = f.parent(x)
                while p is not None and p >= 0:
                    k = f.kind(p)
                    if k == "call" or k == "asg" or k == "un" and "++" in f.pay(p) or k == "atomic":
                        return True
                    if k in ("block",):
                        break
                    p = f.parent(p)
        return False

    def transfer(st, e, b, i):
        return True if st or increments(e) else st

    def edge(st, b, s, kind):
        blk = f.cfg.blocks[b]
        if kind in (True, False) and blk.cond is not None and blk.cond >= 0:
            for n, v in core.atoms(f, blk.cond, kind):
                n = f.unwrap(n)
                if n >= 0 and f.kind(n) == "mem" and f.pay(n)[0] == "suppress" and v:
                    return True
                if n >= 0 and f.kind(n) == "bin" and f.pay(n) == "==" and v:
                    a, c = f.kids(n)
                    if f.txt(f.unwrap(a)).endswith("level") and f.const(c) is not None \
                            and f.const(c) < level["DIAG_ERROR"]:
                        return True
        return st
    ins = core.forward(f, False, transfer, edge, lambda a, b: a and b)
    rep.check("counted", ins.get(f.cfg.exit, False), "diag_femit", f.loc(f.body),
              "a diagnostic can be emitted without being counted")
    idx = [f.txt(f.kids(x)[1]) for x in f.walk() if f.kind(x) == "idx" and f.txt(x).startswith("n_diags[")]
    rep.check("counted", idx and all("level" in t for t in idx), "diag_femit:level", f.loc(f.body),
              "diagnostics are not counted under their own level")
    f = prog.fn("error_count", "src/diag.c")
    c = list(f.calls("diag_count"))
    rep.check("counted", len(c) == 1 and f.const(f.args(c[0])[0]) == level["DIAG_ERROR"], "error_count", f.loc(f.body),
              "error_count does not count diagnostics from level error up")
    for f in prog.fns:
        for c in f.calls("reset_error_count"):
            rep.bad("counted", "%s:reset" % f.name, f.loc(c), "the error count is reset at %s" % f.loc(c))
    # simulation status
    f = prog.fn("run_cmd", "src/nvc.c")

    def ret_ok(n):
        e = f.unwrap(f.kids(n)[0])
        return f.const(e) not in (0,) and any(
            f.kind(x) == "var" and status_var(f, f.pay(x)) for x in f.walk(e))
    rets = [n for n in f.walk() if f.kind(n) == "ret" and f.kids(n)]
    rep.check("counted", rets and all(ret_ok(n) for n in rets), "run_cmd", f.loc(f.body),
              "the run command's result does not come from the model's exit status")
    check_status(prog, rep, level)
    f = prog.fn("emit_vhdl_diag", "src/rt/assert.c")
    bad = []

    def transfer2(st, e, b, i):
        if isinstance(e, (list, tuple)):
            return st
        for x in f.walk(e):
            if f.kind(x) == "idx" and f.txt(x).startswith("counts[") and "severity" in f.txt(x):
                st = st | {"counted"}
        if f.kind(e) == "call":
            if f.callee(e) == "diag_emit":
                st = st | {"emitted"}
            if prog.call_noreturn(f, e):
                if len(st) < 2:
                    bad.append(e)
                return None
        return st
    ins = core.forward(f, frozenset(), transfer2, None, lambda a, b: a & b)
    rep.check("counted", not bad and len(ins.get(f.cfg.exit, ())) == 2, "emit_vhdl_diag", f.loc(f.body),
              "an assertion violation is not always emitted and counted by severity")
    f = prog.fn("get_vhdl_assert_exit_status", "src/rt/assert.c")
    rets = [f.const(f.kids(n)[0]) for n in f.walk() if f.kind(n) == "ret"]
    rep.check("counted", any(r for r in rets) and any(f.txt(x).startswith("counts[") for x in f.walk()
                                                      if f.kind(x) == "idx"),
              "get_vhdl_assert_exit_status", f.loc(f.body), "failed assertions do not fail the run")


def guard_fields(prog, f, call, depth=0):
    """Fields tested by the innermost condition that guards a node."""
    n, p = call, f.parent(call)
    while p >= 0:
        if f.kind(p) in ("if", "while", "for", "cond"):
            c = f.kids(p)[0]
            if c >= 0 and n != c:
                fs = {f.pay(x)[0] for x in f.walk(c) if f.kind(x) == "mem"}
                for x in f.walk(c):
                    if f.kind(x) == "call" and depth < 2:
                        g = prog.callee(f, x)
                        if g is not None and g.body is not None and g.static:
                            fs |= {g.pay(y)[0] for y in g.walk() if g.kind(y) == "mem"}
                if fs:
                    return fs
        n, p = p, f.parent(p)
    return set()


def check_status(prog, rep, level):
    """A simulator stop that reports an error is seen by model_exit_status."""
    st = prog.fn("model_exit_status", "src/rt/model.c")

    def reads(f, n, depth=0):
        out = set()
        for x in f.walk(n):
            if f.kind(x) == "mem":
                out.add(f.pay(x)[0])
            elif f.kind(x) == "call" and depth < 2:
                if f.callee(x) == "error_count":
                    out.add("*")
                g = prog.callee(f, x)
                if g is not None and g.body is not None and g.file == st.file:
                    out |= reads(g, g.body, depth + 1)
        return out

    # conditions under which a failing status is returned
    fails = []
    for n in st.walk():
        if st.kind(n) == "if":
            c, t = st.kids(n)[:2]
            for x in st.walk(t):
                if st.kind(x) == "ret" and st.kids(x) and st.const(st.kids(x)[0]) not in (None, 0):
                    fails.append(reads(st, c))
        elif st.kind(n) == "cond":
            c, t, e = st.kids(n)[:3]
            for x in (t, e):
                if st.const(x) not in (None, 0):
                    fails.append(reads(st, c))
    allreads = reads(st, st.body)
    n = 0
    for f in prog.fns:
        if f.file != "src/rt/model.c" or f.cfg_raw is None or f.noreturn:
            continue
        ds = [c for c in f.calls("diag_new") if (f.const(f.args(c)[0]) or 0) >= level["DIAG_ERROR"]]
        stops = {"force_stop"} & {f.pay(f.unwrap(f.kids(x)[0]))[0] for x in f.walk() if f.kind(x) == "asg"
                                  and f.kind(f.unwrap(f.kids(x)[0])) == "mem"}
        if not ds or not stops:
            continue
        own = {f.pay(f.unwrap(f.kids(x)[0]))[0] for x in f.walk() if f.kind(x) == "asg"
               and f.kind(f.unwrap(f.kids(x)[0])) == "mem"} - stops
        sites = [(g, c) for g, c in prog.callers(f.name)] if hasattr(prog, "callers") else []
        for g, c in sites:
            n += 1
            need = guard_fields(prog, g, c)
            ok = not need or any("*" in r or need <= r or (own & r) for r in fails) or "*" in allreads
            rep.check("counted", ok, "%s:status" % f.name, g.loc(c),
                      "%s reports an error and stops the simulation when %s, but model_exit_status does not fail then"
                      % (f.name, "/".join(sorted(need)) or "called"))


def status_var(f, v):
    for n in f.walk():
        if f.kind(n) == "decl":
            for w, i in f.pay(n):
                if w == v and i >= 0 and any(f.kind(x) == "call" and f.callee(x) == "model_exit_status"
                                             for x in f.walk(i)):
                    return True
        elif f.kind(n) == "asg" and f.var_of(f.kids(n)[0]) == v:
            if any(f.kind(x) == "call" and f.callee(x) == "model_exit_status" for x in f.walk(f.kids(n)[1])):
                return True
    return False
