"""P11: operations keep their operands and roles through the IR layers."""
import json, os
import absint, core, layers, lists
from absint import fs, UNDEF
from facts import AnalysisError
from checks import p07

WANT = ["src/*.c", "src/mir/*.c", "src/jit/*.c", "src/vlog/*.c", "src/psl/*.c", "src/rt/*.c"]

EXPLAIN = """
Provenance interpretation of the three intermediate-representation layers:
every emitter in vcode.c (which parameter becomes which operand of which
operation), every import function in mir-vcode.c reached from the operation
dispatch switch (which operand reaches which parameter of which MIR builder),
and every MIR builder in mir-node.c (which parameter becomes which operand).
The composed role table is compared with the reviewed engine/tables/p11.json,
every operation that one layer can produce must be dispatched by the next, and
no layer may read an operand the previous layer never adds.
"""
ASSUME = ["the role table was reviewed by hand against parameter names on both sides",
          "operands added or read in loops (argument lists) are covered only by the dispatch rule"]


def table(prog):
    emit = layers.vcode_emit(prog)
    imp, reads = layers.vcode_import(prog)
    out = {}
    for e, ops in sorted(emit.items()):
        ef = prog.fn(e)
        for op, m in sorted(ops.items()):
            for b, bm, fn, n in imp.get(op, []):
                edges = set()
                for bp, ks in bm.items():
                    for k in ks:
                        for ep in m.get(k, ()):
                            edges.add((ep, bp))
                if not edges:
                    continue
                bf = prog.find(b)
                if bf is None:
                    continue
                r = out.setdefault(op, {}).setdefault(e, {}).setdefault(b, {
                    "emit_params": [ef.varname(p) for p in ef.params],
                    "build_params": [bf.varname(p) for p in bf.params], "edges": [], "site": fn.loc(n)})
                r["edges"] = sorted({tuple(x) for x in r["edges"]} | edges)
    return out, emit, imp, reads


def run(prog, rep):
    rep.rule("import", "every operation an emitter can create has an import handler (or marks the unit as not importable)")
    rep.rule("irgen", "every MIR operation a builder can create has a code generation handler")
    rep.rule("operands", "an import function reads only operands that every emitter of that operation supplies")
    rep.rule("roles", "each emitter parameter reaches the MIR builder parameter the reviewed role table assigns to it")
    rep.rule("list", "a list of operands is handed on whole and in order, and its length is that of the list")
    rep.rule("optional", "an optional operand is read exactly when the operation has it")
    rep.rule("absent", "a value known to be absent is not used as an operand")
    rep.rule("control", "the block taken when a test is true or false is the one given for that outcome")
    cur, emit, imp, reads = table(prog)
    TABLE.clear()
    TABLE.update(cur)
    sw, cases = layers.switch_dispatch(prog, "src/mir/mir-vcode.c", "VCODE_OP_", 60)
    made = {}
    for e, ops in emit.items():
        for o, m in ops.items():
            made.setdefault(o, []).append((e, m))
    for o, es in sorted(made.items()):
        es = [(e, m) for e, m in es if prog.callers(e)]
        if not es:
            continue
        marked = all(any(prog.fn(e).kind(n) == "enum" and prog.fn(e).pay(n) == "UNIT_UNDEFINED"
                         for n in prog.fn(e).walk()) for e, _ in es)
        rep.check("import", o in cases or marked, o, prog.fn(es[0][0]).loc(None),
                  "%s is created by %s but the import switch in %s has no handler for it"
                  % (o, es[0][0], sw.name))
        rd = reads.get(o, {})
        for k, (fn, n) in sorted(rd.items(), key=str):
            if k[0] != "const":
                continue
            sup = [(e, m) for e, m in es if m]
            if not sup or any("*" in m for _, m in sup):
                continue
            # optional trailing operands are guarded by vcode_count_args
            ok = any(k[1] in m for _, m in sup)
            rep.check("operands", ok, "%s:%s" % (o, k[1]), fn.loc(n),
                      "operand %s of %s is read but no emitter supplies it" % (k[1], o))
    rep.require("import", 100)
    rep.require("operands", 150)

    builds = layers.mir_build(prog)
    d = p07.dispatch(prog)
    for b, ops in sorted(builds.items()):
        for o in ops:
            if not prog.callers(b):
                continue
            rep.check("irgen", o in d, o, prog.fn(b).loc(None),
                      "%s creates %s which jit-irgen.c never translates" % (b, o))
    rep.require("irgen", 100)

    frozen = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "tables", "p11.json")))
    for op, es in sorted(frozen.items()):
        for e, bs in sorted(es.items()):
            ce = e
            if e not in emit:
                cand = [x for x in cur.get(op, {}) if x not in es]
                if len(cand) != 1:
                    rep.notes.append("emitter %s no longer exists" % e)
                    continue
                ce = cand[0]          # renamed
            for b, fr in sorted(bs.items()):
                c = cur.get(op, {}).get(ce, {}).get(b)
                if c is None and prog.find(b) is None:
                    cand = [x for x in cur.get(op, {}).get(ce, {}) if x not in bs]
                    c = cur[op][ce][cand[0]] if len(cand) == 1 else None
                if c is None:
                    rep.bad("roles", "%s:%s:%s" % (op, e, b), sw.loc(sw.body),
                            "%s emitted by %s is no longer imported through %s" % (op, e, b))
                    continue
                want = {(p07.xlate(fr["emit_params"], c["emit_params"], x),
                         p07.xlate(fr["build_params"], c["build_params"], y)) for x, y in fr["edges"]}
                have = {tuple(x) for x in c["edges"]}
                en, bn = c["emit_params"], c["build_params"]
                for x, y in sorted(want | have):
                    key = "%s:%s.%s->%s.%s" % (op, e, en[x], b, bn[y])
                    if (x, y) in want and (x, y) in have:
                        rep.ok("roles", key)
                    elif (x, y) in want:
                        rep.bad("roles", key, c["site"], "parameter '%s' of %s no longer becomes '%s' of %s" % (en[x], e, bn[y], b))
                    else:
                        rep.bad("roles", key, c["site"], "parameter '%s' of %s now becomes '%s' of %s" % (en[x], e, bn[y], b))
    rep.require("roles", 200)
    three = [f for f in prog.fns if f.file in ("src/mir/mir-vcode.c", "src/mir/mir-node.c", "src/vcode.c")]
    lists.check(prog, rep, three + prog.in_file("src/jit/jit-irgen.c"))
    rep.require("list", 60)
    optional(prog, rep, cases, made)
    absent(prog, rep, three)
    control(prog, rep, builds, d)
    strided(prog, rep, builds, d, emit, cases)
    rep.count("emitters", len(emit))
    rep.count("mir_builders", len(builds))


def optional(prog, rep, cases, made):
    for op, hs in sorted(cases.items()):
        most = 0
        for e, m in made.get(op, []):
            most = max([most] + [k + 1 for k in m if isinstance(k, int)])
        for f in hs:
            p07.guards(rep, f, op, most, "vcode_count_args", {"vcode_get_arg": 1})


MAKERS = {"mir_set_arg": 3, "vcode_add_arg": 1, "vcode_add_target": 1, "import_type": 2}


def absent(prog, rep, fns):
    """no operand is taken from a variable on a path where it is known to be null"""
    for f in fns:
        tests = [n for n in f.walk() if f.kind(n) in ("if", "cond") and f.kids(n)[0] >= 0]
        if not tests:
            continue

        def facts(c, v):
            out = set()
            for n, t in core.atoms(f, c, v):
                n = f.unwrap(n)
                if f.kind(n) == "bin" and f.pay(n) in ("==", "!=") and (f.pay(n) == "==") == t:
                    a, b = (f.skip_casts(f.unwrap(y)) for y in f.kids(n))
                    for x, y in ((a, b), (b, a)):
                        if f.kind(x) == "mem" and f.pay(x)[0] == "tag" and f.const(y) == 0:
                            while f.kind(x) == "mem":
                                x = f.skip_casts(f.unwrap(f.kids(x)[0]))
                        elif (f.macro(y) or "").split(">")[-1] not in INVALID:
                            continue
                        if f.kind(x) == "var":
                            out.add(f.pay(x))
            return out

        sites = [n for n in f.calls() if f.callee(n) in MAKERS or (f.callee(n) or "").startswith("mir_build_")]
        if not sites:
            continue
        for n in sites:
            a = f.args(n)
            if f.callee(n) in MAKERS:
                a = a[MAKERS[f.callee(n)]:MAKERS[f.callee(n)] + 1]
            vs = {f.var_of(x) for x in a} - {None}
            if not vs:
                continue
            known = under(f, n, facts)
            bad = vs & known
            opt = f.callee(n).startswith("mir_build_") and not f.callee(n)[10:].isdigit()
            if opt:
                continue       # builders of whole operations accept an absent operand
            rep.check("absent", not bad, "%s:%s" % (f.name, f.txt(n)), f.loc(n),
                      "%s uses '%s' as an operand where it is known to be absent"
                      % (f.name, "/".join(f.varname(v) for v in sorted(bad, key=str))))


INVALID = ("VCODE_INVALID_REG", "VCODE_INVALID_TYPE", "VCODE_INVALID_BLOCK", "MIR_NULL_VALUE")


def under(f, n, facts):
    """variables known absent at n from the conditions it is nested in, if not assigned since"""
    out, x = set(), n
    while True:
        p = f.parent(x)
        if p < 0:
            return out
        if f.kind(p) in ("if", "cond"):
            ks = f.kids(p)
            if x != ks[0]:
                new = facts(ks[0], x == ks[1])
                for y in f.walk(x):
                    if f.kind(y) == "asg":
                        new.discard(f.var_of(f.kids(y)[0]))
                out |= new
        x = p


def polarity(f, call, pick, test):
    """{truth: set(picked)} of the values `pick` selects by the truth of the variable `test`"""
    out = {True: set(), False: set()}

    def truth(c, v):
        for n, t in core.atoms(f, c, v):
            if f.var_of(n) == test:
                return t
        return None
    for n in f.calls(call):
        a = f.unwrap(f.args(n)[pick])
        if f.kind(a) == "cond":
            c, x, y = f.kids(a)
            t = truth(c, True)
            if t is not None:
                out[t].add(f.var_of(x))
                out[not t].add(f.var_of(y))
            continue
        x = n
        while f.parent(x) >= 0:
            p = f.parent(x)
            if f.kind(p) in ("if", "cond") and x != f.kids(p)[0]:
                t = truth(f.kids(p)[0], x == f.kids(p)[1])
                if t is not None:
                    out[t].add(f.var_of(a))
                    break
            x = p
    return out


def control(prog, rep, builds, d):
    # the code generator: which operand of the branch is its true target
    role = {}
    for h in d.get("MIR_OP_COND", []):
        f = h if not isinstance(h, str) else prog.fn(h)
        ops = {}
        for n in f.calls("j_jump"):
            a = f.args(n)
            cc = f.skip_casts(f.unwrap(a[1]))
            k = {operand(f, x) for x in f.walk(a[2]) if f.kind(x) == "var"} - {None}
            if f.kind(cc) == "enum" and len(k) == 1:
                ops.setdefault(f.pay(cc), set()).update(k)
        t, e = ops.get("JIT_CC_T", set()), ops.get("JIT_CC_F", set())
        if not t and not e:
            continue
        rep.check("control", len(t) <= 1 and len(e) <= 1 and not (t & e), "MIR_OP_COND:" + f.name, f.loc(None),
                  "%s jumps to the same block whether the test is true or false" % f.name)
        if len(t) == 1:
            role[True] = list(t)[0]
        if len(e) == 1:
            role[False] = list(e)[0]
    if len(role) < 2:
        return
    for b, ops in sorted(builds.items()):
        m = ops.get("MIR_OP_COND")
        if not m or len(m.get(role[True], ())) != 1 or len(m.get(role[False], ())) != 1:
            continue
        f = prog.fn(b)
        par = {t: f.params[list(m[role[t]])[0]] for t in (True, False)}
        folded(f, rep, "mir_build_jump", 1, "mir_get_const", par)
        # the front end's parameters follow through the role table
        for e, r in role_of(prog, b, par).items():
            folded(prog.fn(e), rep, "emit_jump", 0, "vcode_reg_const", r)


def role_of(prog, b, par):
    out = {}
    bf = prog.fn(b)
    cur = TABLE.get("VCODE_OP_COND", {})
    for e, bs in cur.items():
        for x, y in bs.get(b, {}).get("edges", []):
            for t, p in par.items():
                if bf.params[y] == p:
                    out.setdefault(e, {})[t] = prog.fn(e).params[x]
    return {e: r for e, r in out.items() if len(r) == 2}


TABLE = {}


def operand(f, x):
    """operand number that a local block variable was taken from"""
    v = f.pay(x)
    for n in f.walk():
        if f.kind(n) == "decl":
            for w, i in f.pay(n):
                if w == v and i >= 0:
                    for c in f.calls("mir_get_arg", i):
                        return f.const(f.args(c)[2])
    return None


def folded(f, rep, jump, pick, const, par):
    for n in f.calls(const):
        a = f.unwrap(f.args(n)[-1])
        if f.kind(a) != "un" or f.pay(a) != "&":
            continue
        v = f.var_of(f.kids(a)[0])
        p = polarity(f, jump, pick, v)
        for t in (True, False):
            if p[t] - {None}:
                rep.check("control", p[t] - {None} == {par[t]}, "%s:%s" % (f.name, t), f.loc(n),
                          "%s goes to the wrong block when its test is known to be %s" % (f.name, str(t).lower()))


def field(f, m):
    """name of the structure member a list transfer reads or writes"""
    for x in f.walk(m.site):
        if f.kind(x) == "mem" and f.kind(f.skip_casts(f.unwrap(f.kids(x)[0]))) == "idx":
            b = f.skip_casts(f.unwrap(f.kids(f.skip_casts(f.unwrap(f.kids(x)[0])))[0]))
            if f.kind(b) == "var" and f.pay(x)[0] not in ("bits",):
                return f.pay(x)[0]
    return None


def strided(prog, rep, builds, d, emit, cases):
    """rule list, for lists of records: the parts of each element keep their places"""
    # writer in the MIR builder against reader in the code generator
    for b, ops in sorted(builds.items()):
        f = prog.fn(b)
        mv, lin = lists.moves(f)
        by = {}
        for m in mv:
            if m.dst[0] == "node":
                by.setdefault(id(m.loop), []).append(m)
        for ms in by.values():
            st = ms[0].loop.coef(ms[0].dst[2]) * ms[0].loop.step
            first = {lists.const(m.loop.at(m.dst[2], "lo")): m for m in ms}
            if st < 2 or None in first:
                continue
            blk = {k: "mir_block_t" in (f.vartype(m.src[1]) or "") if m.src[0] == "param" else False
                   for k, m in first.items()}
            for op in ops:
                for h in d.get(op, []):
                    h = prog.fn(h) if isinstance(h, str) else h
                    for site, lo, isblk in reads_of(h, st):
                        if lo is None:
                            continue
                        ok = lo in blk and blk[lo] == isblk
                        rep.check("list", ok, "%s:%s:%s" % (op, h.name, h.txt(site)), h.loc(site),
                                  "%s takes '%s' from the wrong place in each element of %s"
                                  % (h.name, h.txt(site), op))
    # writer in the front end against reader in the importer
    for op, hs in sorted(cases.items()):
        want = []
        for e, ops in emit.items():
            if op in ops:
                mv, _ = lists.moves(prog.fn(e))
                fl = [field(prog.fn(e), m) for m in mv if m.dst[0] == "append"]
                if len(fl) > 1 and None not in fl:
                    want.append(fl)
        if len(want) != 1:
            continue
        for f in hs:
            mv, _ = lists.moves(f)
            ms = sorted((m for m in mv if m.dst[0] == "local"), key=lambda m: m.src[2].get(1, 0))
            fl = [field(f, m) for m in ms]
            if len(fl) == len(want[0]) and None not in fl:
                rep.check("list", fl == want[0], "%s:%s:parts" % (op, f.name), f.loc(ms[0].site),
                          "%s reads the parts of each element as %s but they are written as %s"
                          % (f.name, ", ".join(fl), ", ".join(want[0])))
            for e in {n for n in f.calls() if f.callee(n) in builds}:
                g = prog.fn(f.callee(e))
                mv2, _ = lists.moves(g)
                ms2 = sorted((m for m in mv2 if m.dst[0] == "node"), key=lambda m: m.dst[2].get(1, 0))
                fl2 = [field(g, m) for m in ms2]
                if len(fl2) == len(want[0]) and None not in fl2:
                    rep.check("list", fl2 == want[0], "%s:%s:parts" % (op, g.name), g.loc(ms2[0].site),
                              "%s stores the parts of each element as %s but the front end as %s"
                              % (g.name, ", ".join(fl2), ", ".join(want[0])))


def reads_of(f, stride):
    """(node, first index, taken as a block) of operand reads with the stride in counted loops"""
    lin = lists.Linear(f)
    out = []
    for n in f.walk():
        if f.kind(n) != "for":
            continue
        lp = lists.Loop(f, n, lin)
        if not lp.ok:
            continue
        for x in f.calls(root=lp.body):
            if f.callee(x) not in ("mir_get_arg", "irgen_get_arg"):
                continue
            ix = lin(f.args(x)[2], lp.env)
            if ix is None or lp.coef(ix) * lp.step != stride:
                continue
            p, blk = x, False
            while f.parent(p) >= 0 and f.kind(f.parent(p)) not in ("decl", "asg", "call", "block"):
                p = f.parent(p)
            p = f.parent(p)
            if p >= 0 and f.kind(p) == "decl":
                blk = any("mir_block_t" in (f.vartype(v) or "") for v, i in f.pay(p) if i >= 0 and x in set(f.walk(i)))
            elif p >= 0 and f.kind(p) == "block":
                blk = True            # inside the statement expression of a cast
            out.append((x, lists.const(lp.at(ix, "lo")), blk))
    return out
