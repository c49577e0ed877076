"""P07: compiled code and the runtime agree on every exit argument."""
import json, os
import absint, core, layers
from absint import fs, UNDEF
from facts import AnalysisError

WANT = ["src/jit/*.c", "src/mir/*.c", "src/rt/*.c", "src/vcode.c"]


# ------------------------------------------------------------ generator side

class Irgen(absint.Interp):
    inline_depth = 8
    EMIT = {"j_send", "j_recv", "macro_exit", "j_call", "j_tcall"}
    WRAP = {"jit_value_from_reg", "jit_value_as_reg", "jit_value_from_int64",
            "irgen_get_arg", "irgen_get_value", "mir_get_arg"}

    def __init__(self, prog):
        super().__init__(prog)
        self.exits = {}       # (call stack, node) -> (fn, node, exit terms, slots)
        self.recvs = {}       # (call stack, node) -> (fn, node, pos terms, source terms)
        # helpers that transitively emit sends/exits are analysed in place
        self.reach = set(self.EMIT)
        fns = prog.in_file("src/jit/jit-irgen.c")
        changed = True
        while changed:
            changed = False
            for f in fns:
                if f.name not in self.reach and any(f.callee(n) in self.reach for n in f.calls()):
                    self.reach.add(f.name)
                    changed = True

    def inline(self, fn, n, name, callee):
        if callee.file != "src/jit/jit-irgen.c":
            return False
        if name in self.reach:
            return True
        # a pure value helper: small, returns a jit value
        return callee.ret in ("jit_value_t", "jit_reg_t") and \
            any(callee.callee(c) in ("irgen_get_arg", "irgen_get_value", "jit_value_from_reg",
                                     "jit_value_as_reg") for c in callee.calls()) \
            and not any((callee.callee(c) or "").startswith(("irgen_emit", "j_", "macro_"))
                        for c in callee.calls())

    def call(self, fn, n, name, args, st):
        env, vals, world = st
        if name == "mir_get_arg":
            return self.combine(("marg",), args[2] if len(args) > 2 else fs(UNDEF)), st
        if name == "irgen_get_arg":
            return frozenset(("arg", k) for k in args[2]), st
        if name == "irgen_get_value":
            out = set()
            for v in args[1]:
                out.add(("arg", v[1]) if v[0] == "marg" else ("val", v))
            return frozenset(out), st
        if name == "jit_value_as_reg":
            return frozenset(("reg", x) for x in args[0]), st
        if name == "jit_value_from_reg":
            out = set()
            for x in args[0]:
                if x[0] == "reg":
                    out.add(x[1])
                elif x[0] == "bin" and x[1] == "+" and x[2][0] == "reg":
                    out.add(("next", x[2][1], x[3]))
                elif x[0] == "bin" and x[1] == "+" and x[3][0] == "reg":
                    out.add(("next", x[3][1], x[2]))
                else:
                    out.add(("regval", x))
            return frozenset(out), st
        if name == "jit_value_from_int64":
            return frozenset(("imm", x) for x in args[0]), st
        if name in ("jit_null_ptr", "jit_value_from_handle", "irgen_is_scalar") or \
                name.startswith("mir_"):
            if name == "irgen_is_scalar":
                return frozenset(("isscalar", x) for x in args[2]), st
            if name == "mir_is_scalar":
                return frozenset(("isscalar", x[1] if x[0] == "marg" else x) for x in args[1]), st
            return self.combine(("call", name), *args[1:] if len(args) > 1 else args), st
        if name == "j_send":
            w = dict(world)
            for p in args[1]:
                key = ("slot", p[1]) if p[0] == "const" else ("slot", "*")
                w[key] = args[2] if len(args[1]) == 1 else w.get(key, fs(UNDEF)) | args[2]
            return fs(("void",)), (env, vals, w)
        if name == "macro_exit":
            self.exits[tuple(self.stack), n] = (fn, n, args[1], {
                k[1]: v for k, v in world.items() if isinstance(k, tuple) and k[0] == "slot"})
            return fs(("void",)), (env, vals, {"ret": frozenset(("exit", x[1]) for x in args[1])})
        if name in ("j_call", "j_tcall"):
            return fs(("void",)), (env, vals, {"ret": fs(("call",))})
        if name == "j_recv":
            self.recvs[tuple(self.stack), n] = (fn, n, args[1], world.get("ret", fs(UNDEF)))
            return fs(("recv",)), st
        return None


def dispatch(prog):
    """{MIR_OP_X: [handler Fn]} from the node translator's switch."""
    best = None
    for f in prog.in_file("src/jit/jit-irgen.c"):
        m = {}
        for n in f.walk():
            if f.kind(n) != "switch":
                continue
            cur = []
            def visit(x):
                nonlocal cur
                if x < 0:
                    return
                k = f.kind(x)
                if k == "case":
                    c = f.skip_casts(f.kids(x)[0])
                    cur = cur + [f.pay(c)] if f.kind(c) == "enum" else cur
                    visit(f.kids(x)[2])
                    return
                if k == "default":
                    cur = []
                    visit(f.kids(x)[0])
                    return
                if k == "break":
                    cur = []
                    return
                if k == "block":
                    for y in f.kids(x):
                        visit(y)
                    return
                for c in f.calls(root=x):
                    g = prog.callee(f, c)
                    if g is not None and g.file == f.file:
                        for o in cur:
                            m.setdefault(o, [])
                            if g not in m[o]:
                                m[o].append(g)
            visit(f.kids(n)[1])
        if m and all(k.startswith("MIR_OP_") for k in m) and (best is None or len(m) > len(best)):
            best = m
    if not best or len(best) < 60:
        raise AnalysisError("cannot find the operation dispatch switch in jit-irgen.c")
    return best


# -------------------------------------------------------------- runtime side

WIDTH = {"int8_t": 8, "uint8_t": 8, "char": 8, "int16_t": 16, "uint16_t": 16, "int32_t": 32,
         "uint32_t": 32, "int": 32, "unsigned int": 32, "unsigned": 32, "bool": 1, "_Bool": 1,
         "int64_t": 64, "uint64_t": 64, "size_t": 64, "long": 64, "unsigned long": 64,
         "ssize_t": 64, "intptr_t": 64, "uintptr_t": 64, "double": 64, "signed char": 8,
         "unsigned char": 8, "short": 16, "unsigned short": 16, "long long": 64,
         "jit_handle_t": 32}


def width(prog, ty):
    ty = ty.replace("const ", "").strip()
    if ty.endswith("*"):
        return 64
    if ty in WIDTH:
        return WIDTH[ty]
    td = prog.typedefs.get(ty)
    if td:
        c = td["canon"]
        if c.startswith("enum"):
            return 32
        return width(prog, c) if c != ty else None
    return None


class Exits(absint.Interp):
    def __init__(self, prog):
        super().__init__(prog)
        self.calls_ = []       # (fn, n, name, args)
        self.used = set()      # slot indexes read
        self.stores = []       # (index, field, fn, n)

    def slots(self, t, acc):
        if isinstance(t, tuple):
            if t[0] == "idx" and t[1] == ("args",) and t[2][0] == "const":
                acc.add(t[2][1])
            elif t[0] == "deref" and t[1] == ("args",):
                acc.add(0)
            for x in (t[1:] if isinstance(t[0], str) else t):
                self.slots(x, acc)
        return acc

    def adjust(self, fn, var, terms):
        w = width(self.prog, fn.vartype(var))
        if w is not None and 1 < w < 64:
            return frozenset(("w", w, t) if t[0] == "mem" and t[2] == "integer" else t for t in terms)
        return terms

    def inline(self, fn, n, name, callee):
        if callee.file != "src/jit/jit-exits.c":
            return False
        for a in self.cur:
            if a == fs(("args",)):
                return True
        return callee.static and not name.startswith("jit_attach")

    def call(self, fn, n, name, args, st):
        self.cur = args
        cal = self.prog.callee(fn, n)
        for a in args:
            for t in a:
                self.slots(t, self.used)
        if cal is not None and self.inline(fn, n, name, cal):
            return None
        if name in ("jit_attach_thread", "__builtin_expect", "tb_new", "tb_get", "_tb_free"):
            return None
        self.calls_.append((fn, n, name, args))
        return self.combine(("svc", name)), st

    def assign(self, fn, lhs, l, terms, st):
        # args[k].field = value
        tgt = self.ev(fn, l, st)
        for t in tgt:
            if t[0] == "mem" and t[1][0] in ("idx", "deref"):
                idx = t[1][2][1] if t[1][0] == "idx" and t[1][2][0] == "const" else \
                    0 if t[1] == ("deref", ("args",)) else None
                if idx is not None and t[1][1] == ("args",):
                    self.stores.append((idx, t[2], terms, fn, lhs))
                    env, vals, w = st
                    w = dict(w)
                    w[("stored", idx)] = fs(("y",))
                    st = (env, vals, w)
        return st

    def refine(self, fn, cond, kind, st):
        if st[1].get("quiet"):
            return st
        for t in self.ev(fn, fn.unwrap(cond), st):
            self.slots(t, self.used)
        return st


def strip_slot(t):
    """-> (slot index or None, field, width or 64)"""
    w = 64
    while t[0] == "w":
        w = min(w, t[1])
        t = t[2]
    if t[0] == "addr":
        t = t[1]
    if t[0] == "mem" and t[1][0] == "init":
        inner = t[1][1][0][1]
        return strip_slot(inner)[0], t[2], w
    if t[0] == "un" and t[1] in ("!",):
        return strip_slot(t[2])
    if t[0] == "mem" and t[1][0] == "idx" and t[1][1] == ("args",) and t[1][2][0] == "const":
        return t[1][2][1], t[2], w
    if t[0] == "mem" and t[1] == ("deref", ("args",)):
        return 0, t[2], w
    if t[0] == "idx" and t[1] == ("args",) and t[2][0] == "const":
        return t[2][1], "*", w
    if t[0] == "bin" and t[1] == "+" and t[2] == ("args",) and t[3][0] == "const":
        return t[3][1], "&", w
    return None, None, w


def runtime_side(prog):
    disp = [f for f in prog.in_file("src/jit/jit-exits.c")
            if any("jit_exit_t" in f.vartype(p) for p in f.params) and
            any("jit_scalar_t *" in f.vartype(p) for p in f.params)]
    if len(disp) != 1:
        raise AnalysisError("cannot find the exit dispatcher in jit-exits.c")
    d = disp[0]
    res = {}
    for name, val in prog.enums["jit_exit_t"]:
        x = Exits(prog)
        env = {}
        for p in d.params:
            ty = d.vartype(p)
            if "jit_exit_t" in ty:
                env[p] = fs(("const", val, name))
            elif "jit_scalar_t" in ty:
                env[p] = fs(("args",))
            else:
                env[p] = fs(("param", d.varname(p)))
        out = x.run(d, (env, {}, {}))
        res[name] = (x, out)
    return d, res


# ------------------------------------------------------------------- joining

def has(t, tag):
    return isinstance(t, tuple) and (t and t[0] == tag or
                                     any(has(x, tag) for x in (t[1:] if t and isinstance(t[0], str) else t)))


def slots_of(t):
    """[(slot, width, aggregate field or "")] a service argument carries."""
    while t[0] == "addr":
        t = t[1]
    if t[0] == "init":
        return [(s, w, "" if t[2] else f) for f, x in t[1] for s, w, _ in slots_of(x)]
    s, field, w = strip_slot(t)
    return [] if s is None else [(s, w, "")]


def source(t):
    """Canonical description of what an exit slot carries."""
    if t[0] == "arg" and t[1][0] == "const":
        return ("arg", t[1][1])
    if t[0] == "next" and t[1][0] == "arg" and t[1][1][0] == "const" and t[2] == ("const", 1):
        return ("next", t[1][1][1])
    if t[0] == "isscalar" and t[1][0] == "const":
        return ("scalar", t[1][1])
    if t[0] == "call" and t[1] == "jit_value_from_handle" and has(t, "call"):
        inner = t[2] if len(t) > 2 else None
        if inner and inner[0] == "call" and inner[1] == "irgen_get_handle" and inner[-1][0] == "const":
            return ("handle", inner[-1][1])
    return None


def generator_side(prog):
    """{exit name: [(mir op, fn, node, {slot: terms})]}, {exit name: set(op)} with result"""
    exits, recvs, handlers = {}, {}, dispatch(prog)
    val = {v: n for n, v in prog.enums["jit_exit_t"]}
    for op, hs in handlers.items():
        for h in hs:
            ir = Irgen(prog)
            ir.run(h, ({p: fs(("param", i)) for i, p in enumerate(h.params)}, {}, {}))
            for (stk, n), (fn, _, terms, slots) in ir.exits.items():
                for x in terms:
                    if x[0] == "const" and x[1] in val:
                        exits.setdefault(val[x[1]], []).append((op, fn, n, slots))
            for (stk, n), (fn, _, pos, src) in ir.recvs.items():
                for s in src:
                    if s[0] == "exit" and s[1] in val:
                        recvs.setdefault(val[s[1]], set()).add(op)
    return handlers, exits, recvs


def service_map(prog, x):
    """{service: {param idx: set((slot, width))}} for calls made by one exit."""
    out = {}
    for fn, n, name, args in x.calls_:
        if not name:
            continue
        m = out.setdefault(name, {})
        for i, a in enumerate(args):
            for t in a:
                for s, w, f in slots_of(t):
                    m.setdefault(i, set()).add((s, f))
    return {k: v for k, v in out.items() if v}


def svc_names(prog, name):
    """Parameter names and types of the service as defined (or declared)."""
    f = prog.find(name)
    if f is not None:
        return [f.varname(p) for p in f.params], [f.vartype(p) for p in f.params]
    d = prog.decls.get(name)
    if d and "params" in d:
        return [p[0] for p in d["params"]], [p[1] for p in d["params"]]
    return None, None


def routing(prog):
    """The routing actually implemented, one record per (exit, MIR op)."""
    handlers, exits, recvs = generator_side(prog)
    disp, res = runtime_side(prog)
    builds = {}
    for b, ops in layers.mir_build(prog).items():
        for o, m in ops.items():
            builds.setdefault(o, []).append((b, m))
    recs = {}
    for e, uses in exits.items():
        x, out = res[e]
        for op, fn, n, slots in uses:
            for svc, smap in service_map(prog, x).items():
                edges = set()
                for pi, ss in smap.items():
                    for s, f in ss:
                        for t in slots.get(s, ()):
                            src = source(t)
                            if src:
                                edges.add((src[0], src[1], pi, f))
                r = recs.setdefault((e, op, svc), {"edges": set(), "fn": fn, "n": n})
                r["edges"] |= edges
    return handlers, exits, recvs, disp, res, builds, recs


def named(prog, builds, op, k):
    """Name the MIR operand k of op by the builder parameter that supplies it."""
    out = set()
    for b, m in builds.get(op, []):
        f = prog.fn(b)
        for p in m.get(k, ()):
            out.add(p)
    return out


def table(prog):
    handlers, exits, recvs, disp, res, builds, recs = routing(prog)
    out = {}
    for (e, op, svc), r in sorted(recs.items()):
        bl = builds.get(op, [])
        if len(bl) != 1:
            continue
        b, m = bl[0]
        bf = prog.fn(b)
        sn, st = svc_names(prog, svc)
        es = []
        for kind, k, pi, f in sorted(r["edges"]):
            if sn is None or pi >= len(sn):
                continue
            ps = m.get(k, set())
            for p in sorted(ps):
                es.append([kind, p, pi, f])
        if es:
            out.setdefault(op, {})[svc] = {
                "exit": e, "build": b, "build_params": [bf.varname(p) for p in bf.params],
                "svc_params": sn, "edges": es}
    return out


def xlate(frozen_names, names, i):
    """Index of a frozen parameter in the current signature: by name while the
    set of names is unchanged (parameters may be reordered), else by position
    (they may have been renamed)."""
    if frozen_names and names and sorted(frozen_names) == sorted(names) and len(set(names)) == len(names):
        return names.index(frozen_names[i])
    return i


EXPLAIN = """
Abstract interpretation (provenance terms, no path conditions) of both ends of
every runtime exit.  The generator side interprets each MIR operation handler
in jit-irgen.c and records what is placed in each argument slot at each exit;
the runtime side interprets the exit dispatcher in jit-exits.c once per exit
code and records which slot reaches which parameter of which runtime service.
MIR builders are interpreted to name each operand.  The composed route
(builder parameter -> slot -> service parameter) is compared with the reviewed
routing table in engine/tables/p07.json.
"""
ASSUME = ["the routing table was reviewed by hand against the parameter names and the IEEE 1076 semantics of each operation",
          "variable-length argument lists (subprogram calls, system calls) are only covered by the defined-before-use rule"]


def union_slots(fn, n, depth=0):
    """Slots of values that are kept as a scalar-or-pointer union."""
    out = set()
    for x in fn.walk(n):
        if fn.kind(x) != "var" or fn.varkind(fn.pay(x)) != "l":
            continue
        v = fn.pay(x)
        union = "jit_scalar_t" in fn.vartype(v) and "*" not in fn.vartype(v)
        for d in fn.walk():
            if fn.kind(d) != "decl":
                continue
            for w, i in fn.pay(d):
                if w != v or i < 0:
                    continue
                if union:
                    out |= {fn.const(fn.kids(y)[1]) for y in fn.walk(i) if fn.kind(y) == "idx"
                            and fn.const(fn.kids(y)[1]) is not None}
                elif depth < 2 and "*" in fn.vartype(v):
                    out |= union_slots(fn, i, depth + 1)
    return out


def check_flags(rep, exits, res):
    for e, uses in sorted(exits.items()):
        x, _ = res[e]
        vals = set()
        for fn, n, name, args in x.calls_:
            for a in fn.args(n):
                vals |= union_slots(fn, a)
        vals = sorted(vals)
        if len(vals) != 1:
            continue
        for op, fn, n, slots in uses:
            flags = {source(t)[1] for ts in slots.values() for t in ts if source(t) and source(t)[0] == "scalar"}
            src = {source(t)[1] if source(t) and source(t)[0] == "arg" else None for t in slots.get(vals[0], ())}
            if not flags or None in src or not src:
                continue
            rep.check("flag", flags <= src, "%s:%s" % (e, op), fn.loc(n),
                      "%s sends operand %s as the value of %s but the scalar flag of operand %s"
                      % (fn.name, "/".join(map(str, sorted(src))), e, "/".join(map(str, sorted(flags)))))


HOLDS = {">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b,
         "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b}


def check_optional(prog, rep, handlers, builds):
    for op, hs in sorted(handlers.items()):
        most = 0
        for b, m in builds.get(op, []):
            ks = [k for k in m if isinstance(k, int)]
            most = max([most] + [k + 1 for k in ks])
        if not most:
            continue
        for f in hs:
            guards(rep, f, op, most, "mir_count_args", {"irgen_get_arg": 2, "mir_get_arg": 2})


def guards(rep, f, op, most, count, reads):
    """every 'if (count > k)' that decides whether operands are read fits the operands read"""
    def counted(a):
        if f.kind(a) == "var" and f.varkind(f.pay(a))[0] == "l":
            for d in f.walk():
                if f.kind(d) == "decl":
                    for v, i in f.pay(d):
                        if v == f.pay(a) and i >= 0:
                            a = f.skip_casts(f.unwrap(i))
        return f.kind(a) == "call" and f.callee(a) == count
    for n in f.walk():
        if f.kind(n) not in ("if", "cond"):
            continue
        c = f.unwrap(f.kids(n)[0])
        if c < 0 or f.kind(c) != "bin" or f.pay(c) not in HOLDS:
            continue
        a, b = (f.skip_casts(f.unwrap(x)) for x in f.kids(c))
        if not counted(a) or f.const(b) is None:
            continue
        lim, rel = f.const(b), HOLDS[f.pay(c)]
        truth = [rel(k, lim) for k in range(most + 1)]
        for branch, when in ((f.kids(n)[1], True), (f.kids(n)[2] if len(f.kids(n)) > 2 else -1, False)):
            if branch is None or branch < 0:
                continue
            read = {f.const(f.args(x)[p]) for r, p in reads.items() for x in f.calls(r, branch)}
            read.discard(None)
            if not read:
                continue
            want = [t == when for t in truth]
            good = any(want == [k > r for k in range(most + 1)] for r in read)
            rep.check("optional", good, "%s:%s" % (op, "/".join(map(str, sorted(read)))), f.loc(c),
                      "%s reads operand %s of %s under '%s', but the operation is built with up to %d operands"
                      % (f.name, "/".join(map(str, sorted(read))), op, f.txt(c), most))


def run(prog, rep):
    handlers, exits, recvs, disp, res, builds, recs = routing(prog)
    rep.rule("defined", "every slot the runtime handler of an exit reads is set on every path that leaves generated code through that exit")
    rep.rule("routing", "builder operands reach the runtime service parameter the reviewed routing table assigns to them, and no other")
    rep.rule("result", "generated code takes a result from an exit only if the runtime handler stores one")
    rep.rule("width", "an operand bound for a 64-bit service parameter is not narrowed on the way")
    rep.rule("flag", "the scalar flag sent through an exit describes the operand the runtime reads as a scalar or as a pointer")
    rep.rule("optional", "an optional operand is read whenever the operation has it")
    rep.rule("handled", "every exit that generated code takes is dispatched by the runtime, and calls a service")

    for e, uses in sorted(exits.items()):
        x, out = res[e]
        reads = set(x.used)
        for op, fn, n, slots in uses:
            rep.check("handled", bool(x.calls_) or bool(x.stores), "%s:%s" % (e, op), fn.loc(n),
                      "%s is taken by %s but the runtime dispatcher performs nothing for it" % (e, op))
            variable = any(has(t, "seq") for ts in slots.values() for t in ts) or "*" in slots
            for s in sorted(reads):
                ts = slots.get(s)
                if ts is None:
                    ok = False
                elif variable:
                    ok = True
                else:
                    ok = UNDEF not in ts
                rep.check("defined", ok, "%s:%s:%d" % (e, op, s), fn.loc(n),
                          "argument slot %d of %s is read by the runtime but not set on every path of the %s handler %s"
                          % (s, e, op, fn.name))
        stores = {s[0] for s in x.stores}
        rep.check("result", not recvs.get(e) or 0 in stores or any("args" in str(c[3]) for c in x.calls_),
                  e, disp.loc(disp.body),
                  "%s uses the result of %s but the runtime handler never stores one"
                  % (sorted(recvs.get(e, [])), e))
    rep.require("defined", 120)
    rep.require("handled", 40)

    frozen = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "tables", "p07.json")))
    cur = table(prog)
    sites = {}
    for (e, op, svc), r in recs.items():
        sites[op, svc] = r["fn"].loc(r["n"])
    for op, svcs in sorted(frozen.items()):
        for svc, fr in sorted(svcs.items()):
            c = cur.get(op, {}).get(svc)
            if c is None and op in cur:
                # renamed service: the exit's only service unknown to the table
                cand = [s for s in cur[op] if s not in svcs and cur[op][s]["exit"] == fr["exit"]]
                if len(cand) == 1:
                    c = cur[op][cand[0]]
            if c is None:
                if op not in handlers:
                    raise AnalysisError("no handler for %s" % op)
                if fr["exit"] in exits and any(o == op for o, _, _, _ in exits[fr["exit"]]):
                    rep.bad("routing", "%s:%s" % (op, svc), disp.loc(disp.body),
                            "%s no longer reaches %s with any operand" % (op, svc))
                    continue
                raise AnalysisError("%s no longer leaves through %s" % (op, fr["exit"]))
            want = {(k, xlate(fr["build_params"], c["build_params"], a),
                     xlate(fr["svc_params"], c["svc_params"], b), f) for k, a, b, f in fr["edges"]}
            have = {tuple(x) for x in c["edges"]}
            site = sites.get((op, svc), disp.loc(disp.body))
            bn, sn = c["build_params"], c["svc_params"] or []
            nm = lambda l, i: l[i] if i < len(l) else str(i)
            for k, a, b, f in sorted(want | have):
                src = {"arg": "operand '%s'", "next": "second word of operand '%s'",
                       "scalar": "scalar flag of operand '%s'", "handle": "handle of operand '%s'"}[k] % nm(bn, a)
                dst = nm(sn, b) + ("." + f if f else "")
                key = "%s:%s:%s:%s->%s" % (op, svc, k, nm(bn, a), dst)
                if (k, a, b, f) in want and (k, a, b, f) in have:
                    rep.ok("routing", "%s %s.%s -> %s.%s" % (site, op, nm(bn, a), svc, dst))
                elif (k, a, b, f) in want:
                    rep.bad("routing", key, site, "%s of %s no longer reaches parameter '%s' of %s"
                            % (src, op, dst, svc))
                else:
                    rep.bad("routing", key, site, "%s of %s now reaches parameter '%s' of %s"
                            % (src, op, dst, svc))
    rep.require("routing", 120)

    for e, (x, out) in sorted(res.items()):
        for fn, n, name, args in x.calls_:
            sn, st = svc_names(prog, name) if name else (None, None)
            if not st:
                continue
            for i, a in enumerate(args):
                if i >= len(st):
                    continue
                pw = width(prog, st[i])
                for t in a:
                    s, field, w = strip_slot(t)
                    if s is None or field != "integer" or pw is None:
                        continue
                    rep.check("width", w >= pw, "%s:%s:%d" % (e, name, i), fn.loc(n),
                              "slot %d of %s is narrowed to %d bits before it is passed to the %d-bit parameter '%s' of %s"
                              % (s, e, w, pw, sn[i], name))
    rep.require("width", 60)
    check_flags(rep, exits, res)
    check_optional(prog, rep, handlers, builds)
    rep.count("exits", len(exits))
    rep.count("mir_operations", len(handlers))
