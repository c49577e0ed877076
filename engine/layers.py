"""Operand routing through the lowering layers: front-end emit call ->
vcode operand -> MIR builder parameter -> MIR operand."""
import absint, core
from absint import fs, UNDEF, TOP
from facts import AnalysisError


class VcodeEmit(absint.Interp):
    """vcode.c: which parameter of emit_X becomes which operand of the op."""
    def __init__(self, prog):
        super().__init__(prog)
        self.ops = {}      # op name -> {idx: set(terms)}
        self.reach = {"vcode_add_op", "vcode_add_arg"}
        fns = prog.in_file("src/vcode.c")
        ch = True
        while ch:
            ch = False
            for f in fns:
                if f.name not in self.reach and f.static and any(f.callee(n) in self.reach for n in f.calls()):
                    self.reach.add(f.name)
                    ch = True

    def inline(self, fn, n, name, callee):
        return callee.file == "src/vcode.c" and callee.static and name in self.reach

    def call(self, fn, n, name, args, st):
        env, vals, w = st
        if name == "vcode_add_op":
            ops = frozenset(x[2] if len(x) > 2 else str(x[1]) for x in args[0] if x[0] == "const")
            w = dict(w)
            w["op"] = ops
            w["n"] = fs(0)
            w["nt"] = fs(0)
            for o in ops:
                self.ops.setdefault(o, {})
            return fs(("op",)), (env, vals, w)
        if name == "vcode_add_arg":
            w = dict(w)
            cnt = w.get("n", fs(TOP))
            for o in w.get("op", ()):
                for c in cnt:
                    if isinstance(c, int) or c == "*":
                        self.ops.setdefault(o, {}).setdefault(c, set()).update(args[1])
            loop = self.in_loop(fn, n)
            w["n"] = frozenset("*" if (loop or not isinstance(c, int)) else c + 1 for c in cnt)
            return fs(("void",)), (env, vals, w)
        if name == "vcode_add_target" or (name == "vcode_block_array_add" and self.targets(fn, n)):
            w = dict(w)
            cnt = w.get("nt", fs(0))
            loop = self.in_loop(fn, n)
            for o in w.get("op", ()):
                for c in cnt:
                    if not loop and isinstance(c, int):
                        self.ops.setdefault(o, {}).setdefault("t%d" % c, set()).update(args[1])
            w["nt"] = frozenset("*" if (loop or not isinstance(c, int)) else c + 1 for c in cnt)
            return fs(("void",)), (env, vals, w)
        return None

    def targets(self, fn, n):
        return any(fn.kind(x) == "mem" and fn.pay(x)[0] == "targets" for x in fn.walk(fn.args(n)[0]))

    def joinw(self, key, a, b):
        return (a | b) - {UNDEF} or a | b


class VcodeImport(absint.Interp):
    """mir-vcode.c: which vcode operand becomes which MIR builder argument."""
    def __init__(self, prog):
        super().__init__(prog)
        self.builds = {}     # (stack, node) -> (fn, n, name, args)
        self.reads = {}

    def inline(self, fn, n, name, callee):
        return callee.file == "src/mir/mir-vcode.c" and callee.static and name.startswith("import_") \
            and callee.ret in ("mir_value_t", "void") and name not in ("import_type",)

    def call(self, fn, n, name, args, st):
        if name == "vcode_get_arg":
            for k in args[1]:
                self.reads.setdefault(k, (fn, n))
            return frozenset(("varg", k) for k in args[1]), st
        if name == "vcode_get_target":
            ks = [("const", "t%d" % k[1]) if k[0] == "const" else k for k in args[1]]
            for k in ks:
                self.reads.setdefault(k, (fn, n))
            return frozenset(("varg", k) for k in ks), st
        if name and name.startswith("mir_build_"):
            self.builds[tuple(self.stack), n] = (fn, n, name, args)
            return fs(("built", name)), st
        return None

    def ev(self, fn, n, st):
        r = super().ev(fn, n, st)
        if any(t[0] == "idx" and t[2][0] == "varg" for t in r):
            return frozenset(t[2] if t[0] == "idx" and t[2][0] == "varg" else t for t in r)
        return r


class MirBuild(absint.Interp):
    """mir-node.c: which builder parameter becomes which MIR operand."""
    def __init__(self, prog):
        super().__init__(prog)
        self.ops = {}

    def inline(self, fn, n, name, callee):
        return callee.file == "src/mir/mir-node.c" and name.startswith("mir_build_") \
            and (name[10:].isdigit() or callee.static)

    def call(self, fn, n, name, args, st):
        if name == "mir_add_node":
            return frozenset(("node", x[2] if len(x) > 2 else x) for x in args[1]), st
        if name == "mir_set_arg":
            for nd in args[1]:
                for k in args[2]:
                    if nd[0] == "node":
                        self.put(nd[1], k, args[3])
            return fs(("void",)), st
        if name == "mir_cast_value":
            return args[0], st
        return None

    def put(self, op, k, terms):
        if k[0] == "const":
            self.ops.setdefault(op, {}).setdefault(k[1], set()).update(terms)

    def assign(self, fn, lhs, l, terms, st):
        for t in self.ev(fn, l, st):
            if t[0] == "idx" and t[1][0] == "mem" and t[1][2] == "args" and t[1][1][0] == "node":
                self.put(t[1][1][1], t[2], terms)
            elif t[0] == "idx" and t[1][0] == "mem" and t[1][2] == "argspill":
                off, k = t[2], ("const", 0)
                if off[0] == "bin" and off[1] == "+":
                    off, k = (off[2], off[3]) if off[2][0] == "mem" else (off[3], off[2])
                if off[0] == "mem" and off[2] == "spilloff" and off[1][0] == "node":
                    self.put(off[1][1], k, terms)
        return st


def params(terms):
    out = set()
    for t in terms:
        if t[0] == "param":
            out.add(t[1])
        elif t[0] == "call" and t[1] in ("mir_enum", "mir_add_linkage"):
            out |= params(t[-1:])
        elif t[0] == "init" and len(t[1]) == 1 and t[1][0][0] == "bits" and t[1][0][1][0] == "mem":
            out |= params([t[1][0][1][1]])      # the value seen as another kind of value
    return out


def run_fn(interp, f):
    env = {p: fs(("param", i)) for i, p in enumerate(f.params)}
    return interp.run(f, (env, {}, {}))


def vcode_emit(prog):
    """{emit fn name: {op: {idx: set(param index)}}}"""
    out = {}
    for f in prog.in_file("src/vcode.c"):
        if f.static or not f.name.startswith("emit_"):
            continue
        it = VcodeEmit(prog)
        run_fn(it, f)
        if it.ops:
            out[f.name] = {o: {i: params(t) for i, t in a.items()} for o, a in it.ops.items()}
    return out


def switch_dispatch(prog, file, prefix, minimum):
    """{case constant: [callee Fn]} of the largest switch over `prefix`."""
    best, bestf = None, None
    for f in prog.in_file(file):
        for sw in f.walk():
            if f.kind(sw) != "switch":
                continue
            m = {}
            cur = []

            def visit(x):
                nonlocal cur
                if x < 0:
                    return
                k = f.kind(x)
                if k == "case":
                    c = f.skip_casts(f.kids(x)[0])
                    if f.kind(c) == "enum":
                        cur = cur + [f.pay(c)]
                        m.setdefault(f.pay(c), [])
                    visit(f.kids(x)[2])
                elif k == "default":
                    cur = []
                    visit(f.kids(x)[0])
                elif k in ("break",):
                    cur = []
                elif k == "ret":
                    for c in f.calls(root=x):
                        m_add(c)
                    cur = []
                elif k == "block":
                    for y in f.kids(x):
                        visit(y)
                else:
                    for c in f.calls(root=x):
                        m_add(c)

            def m_add(c):
                g = prog.callee(f, c)
                if g is not None and g.file == f.file:
                    for o in cur:
                        if g not in m[o]:
                            m[o].append(g)
            visit(f.kids(sw)[1])
            if m and all(k.startswith(prefix) for k in m) and \
                    sum(1 for v in m.values() if v) > (sum(1 for v in best.values() if v) if best else 0):
                best, bestf = m, f
    if best is None or len(best) < minimum:
        raise AnalysisError("cannot find the %s* dispatch switch in %s" % (prefix, file))
    return bestf, best


def vcode_import(prog):
    """{VCODE_OP: [(mir_build fn, {build param: set(vcode arg idx)}, fn, n)]}, reads"""
    f, d = switch_dispatch(prog, "src/mir/mir-vcode.c", "VCODE_OP_", 60)
    out, reads = {}, {}
    for op, hs in d.items():
        for h in hs:
            it = VcodeImport(prog)
            run_fn(it, h)
            for (stk, n), (fn, _, name, args) in it.builds.items():
                m = {}
                for i, a in enumerate(args):
                    ks = {t[1][1] for t in a if t[0] == "varg" and t[1][0] == "const"}
                    if ks:
                        m[i] = ks
                out.setdefault(op, []).append((name, m, fn, n))
            reads[op] = it.reads
    return out, reads


def mir_build(prog):
    """{mir_build fn: {op: {arg idx: set(param idx)}}}"""
    out = {}
    for f in prog.in_file("src/mir/mir-node.c"):
        if f.static or not f.name.startswith("mir_build_"):
            continue
        it = MirBuild(prog)
        run_fn(it, f)
        if it.ops:
            out[f.name] = {o: {i: params(t) for i, t in a.items()} for o, a in it.ops.items()}
    return out
