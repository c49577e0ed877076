"""P08: the interpreter and the native code generator agree on every opcode."""
import absint, core, layers, ops
from facts import AnalysisError

WANT = ["src/jit/*.c", "src/util.c"]
EXPLAIN = """
The handler of every opcode in the interpreter (C) and in the native code
generator (calls to the LLVM builder) is abstractly evaluated once per
condition code, size and flag value into terms over the operand registers,
immediates, memory and the flags; the value written, flags, memory effects and
branch decisions must be the same term.  How each operand kind is fetched is
compared likewise.  Run-time calls must be preceded by recording the
instruction position wherever the interpreter records it, and exits with a
dedicated native entry point must reach the service the dispatcher reaches.
"""
ASSUME = ["LLVM builder functions and intrinsics mean what the LLVM manual says",
          "terms using a construct the evaluator does not model are not compared (counted)",
          "the run-time loop of the exponentiation helpers is compared by width, signedness and overflow only"]

SIZES = ["8", "16", "32", "64"]
SIGNCC = ["NONE", "O", "C"]
CMPCC = ["EQ", "NE", "GT", "LT", "GE", "LE"]
# operations the two engines implement as one computation on registers and memory
VALID = {
    "J_MUL": (SIGNCC, SIZES), "J_ADD": (SIGNCC, SIZES), "J_SUB": (SIGNCC, SIZES),
    "J_LOAD": (["NONE"], SIZES), "J_ULOAD": (["NONE"], SIZES), "J_STORE": (["NONE"], SIZES),
    "MACRO_SADD": (["NONE"], SIZES), "MACRO_EXP": (["O", "C", "NONE"], SIZES), "MACRO_MEMSET": (["NONE"], SIZES),
    "J_CMP": (CMPCC, ["UNSPEC"]), "J_CCMP": (CMPCC, ["UNSPEC"]),
    "J_FCMP": (CMPCC, ["UNSPEC"]), "J_FCCMP": (CMPCC, ["UNSPEC"]),
    "J_JUMP": (["NONE", "T", "F"], ["UNSPEC"]),
}
LEAF = {"V", "R", "F", "const", "flt"}
NODE = {"+", "-", "*", "/", "rem", "<<", ">>s", ">>u", "&", "|", "^", "neg", "fneg", "!", "==", "!=", "<", "<=",
        "u<", "u<=", "u>", "u>=", "u/", "urem", "f+", "f-", "f*", "f/", "f==", "f!=", "f<", "f<=", "sx", "zx", "tr",
        "sx1", "ld", "ovf", "ovres", "acc", "accovf", "satadd", "pow", "copysign", "sitofp", "fptosi", "sel",
        "memcpy", "memmove", "memset", "uitofp", "fptoui", "ipow"}


def known(t):
    if not isinstance(t, tuple) or not t:
        return isinstance(t, (int, str)) and t != "?"
    h = t[0]
    if h in LEAF:
        return all(not isinstance(x, tuple) for x in t)
    if isinstance(h, str) and (h in NODE or h.startswith("f?")):
        return all(known(x) for x in t[1:])
    if isinstance(h, int):
        return all(known(x) for x in t[1:])
    return False


def unptr(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "ptr" and len(t) == 2:
        return unptr(t[1])
    return tuple(unptr(x) for x in t)


def imm(t):
    """Constants wrapped around immediates are the immediate."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("const",) and isinstance(t[1], tuple):
        return imm(t[1])
    return tuple(imm(x) for x in t)


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple):
        return t
    return tuple(subst(x, a, b) for x in t)


def resort(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(resort(x) for x in t)
    if t and t[0] in ops.COMM and len(t) == 3:
        return (t[0],) + tuple(sorted(t[1:], key=repr))
    return t


def norm(eff):
    return {k: frozenset(resort(imm(unptr(t))) for t in v) for k, v in (eff or {}).items()}


def show(v):
    def one(t):
        if not isinstance(t, tuple):
            return str(t)
        if t[0] in ("V", "R"):
            return {0: "result", 1: "arg1", 2: "arg2"}[t[1]] + (".real" if t[0] == "R" else "")
        if t[0] == "F":
            return "flags"
        if t[0] == "const":
            return str(t[1])
        if t[0] == "aimm":
            return "arg%d.%s" % (t[1], "disp" if t[2] == "disp" else "imm")
        return "%s(%s)" % (t[0], ", ".join(one(x) for x in t[1:]))
    return " | ".join(sorted(one(t) for t in v)) or "nothing"


def accs(terms):
    """(signedness, width, extension) of accumulated results."""
    out = set()

    def go(t, ex):
        if isinstance(t, tuple):
            if t and t[0] == "acc":
                out.add((t[1], t[2], ex))
                return
            for x in t:
                go(x, t[0] if t[0] in ("sx", "zx") else ex)
    for t in terms:
        go(t, None)
    return out


def hassel(ts):
    return any(t[0] == "sel" for t in ts if isinstance(t, tuple))


def flat(ts):
    """Both arms of top-level selections (one engine branches, the other selects)."""
    out = set()
    for t in ts:
        if isinstance(t, tuple) and t[0] == "sel":
            out |= flat(t[2:4])
        else:
            out.add(t)
    return frozenset(out)


KEYS = ("res", "flags", "store", "mem", "fill", "clobber")


def special(op, cc, sz, a, b):
    """Pairs (what, interpreter, native) for operations not compared term by term."""
    if op == "MACRO_SADD":
        bits = int(sz)
        out = set()
        for x in a.get("store", ()):
            if x[2][0] == "ovres" and x[2][1] == "+":
                out.add((x[0], x[1], ("satadd",) + x[2][2:4] +
                         tuple(sorted((ops.tr(bits, y) if y[0] == "V" and bits < 64 else y for y in x[2][4:]), key=repr))))
            elif x[2] not in (("const", (1 << bits) - 1), ("const", str((1 << bits) - 1))):
                out.add(x)
        lb = {(x[0], x[1], x[2][:3] + tuple(sorted(x[2][3:], key=repr))) if x[2][0] == "satadd" else x
              for x in b.get("store", ())}
        return [("memory", frozenset(out), frozenset(lb))]
    if op == "MACRO_EXP":
        if cc == "NONE":
            return []
        r = [("result", frozenset(accs(a.get("res", ()))), frozenset(accs(b.get("res", ()))))]
        has = lambda e: frozenset([("const", int("accovf" in repr(e.get("flags", ()))))])
        return r + [("overflow flag", has(a), has(b))]
    if op == "MACRO_MEMSET":
        l = set(b.get("fill", ()))
        for m in b.get("mem", ()):
            if m[0] == "memset":
                l.add((8, m[2], m[1], m[3]))
        bad = [x for x in l if len(x) == 4 and x[2:] != (("V", 1), ("V", 0))]
        return [("memory", a.get("fill", frozenset()), frozenset(x[:2] if x not in bad else x for x in l))]
    if op == "J_JUMP":
        ta = frozenset([("const", int("pc" in a))])
        tb = set()
        for c, t, f in b.get("br", ()):
            if c[0] != "const":
                return None
            d = t if c[1] else f
            tb.add(("const", int(d[0] == "edge")))
        return [("branch taken", ta, frozenset(tb))]
    return None


def allknown(terms):
    return all(known(t) or t[0] == "aimm" for t in terms) if terms else True


def deep_known(t):
    if not isinstance(t, tuple):
        return True
    if t and t[0] == "aimm":
        return True
    return known(t) if not any(isinstance(x, tuple) for x in t) else \
        (t[0] in NODE or t[0] in LEAF or isinstance(t[0], int) or str(t[0]).startswith("f?")) and \
        all(deep_known(x) for x in t)


def run(prog, rep):
    en = {}
    for e in ("jit_cc_t", "jit_size_t", "jit_op_t", "jit_value_kind_t", "jit_exit_t"):
        en[e] = dict(prog.enums[e])
    CC, SZ, OP, VK, EX = (en[e] for e in ("jit_cc_t", "jit_size_t", "jit_op_t", "jit_value_kind_t", "jit_exit_t"))
    fi, di = layers.switch_dispatch(prog, "src/jit/jit-interp.c", ("J_", "MACRO_"), 30)
    fl, dl = layers.switch_dispatch(prog, "src/jit/jit-llvm.c", ("J_", "MACRO_"), 30)

    rep.rule("handled", "every opcode of jit_op_t has a case in both engines")
    for op in OP:
        if op.startswith("__"):
            continue
        rep.check("handled", op in di, op + ":interpreter", fi.loc(fi.body), "%s has no case in %s" % (op, fi.name))
        rep.check("handled", op in dl, op + ":native", fl.loc(fl.body), "%s has no case in %s" % (op, fl.name))
    rep.require("handled", 80)

    I, L = ops.CInterp(prog), ops.LlvmGen(prog)
    rep.rule("agree", "for each opcode, condition code, size and operand kind, the value, flags and memory effects the "
                      "interpreter computes are the ones the native code computes")
    rep.rule("position", "whenever the interpreter records the instruction position for a run-time call, the native "
                         "code records it before its call")
    rep.rule("exit", "an exit with a dedicated entry point in native code reaches the service the dispatcher reaches")
    REG, INT, ADDR = VK["JIT_VALUE_REG"], VK["JIT_VALUE_INT64"], VK["JIT_ADDR_REG"]
    skipped = compared = nohand = 0
    for op in sorted(x for x in OP if not x.startswith("__")):
        if not di.get(op) or not dl.get(op):
            nohand += 1
            continue
        hi, hl = di[op][0], dl[op][0]
        ccs, szs = VALID.get(op, (["NONE"], ["UNSPEC"]))
        kinds = [(REG, REG, "")]
        for cc in ccs:
            for sz in szs:
                for k1, k2, kn in kinds:
                    for flag in ((0, 1) if op in ("J_CSEL", "J_JUMP") else (None,)):
                        key = ":".join(x for x in (op, cc if cc != "NONE" else "", sz if sz != "UNSPEC" else "", kn,
                                                   "" if flag is None else "flag%d" % flag) if x)
                        args = (OP[op], CC["JIT_CC_" + cc], SZ["JIT_SZ_" + sz], {1: k1, 2: k2}, flag)
                        a, b = I.evaluate(hi, *args), L.evaluate(hl, *args)
                        if a is None or b is None:
                            skipped += 1
                            continue
                        a, b = norm(a), norm(b)
                        pairs = special(op, cc, sz, a, b)
                        if pairs is None:
                            pairs = [(k, a.get(k, frozenset()), b.get(k, frozenset())) for k in KEYS
                                     if k in a or k in b]
                        for what, x, y in pairs:
                            if x == y or (hassel(x) != hassel(y) and flat(x) == flat(y)):
                                rep.ok("agree", "%s %s" % (key, what))
                                compared += 1
                                continue
                            und = op != "MACRO_EXP" and not (all(deep_known(t) for t in x | y) and x and y)
                            if und and not (x and y) and all(deep_known(t) for t in x | y) and what in ("flags", "store", "memory", "fill", "clobber") and \
                                    not (a.get("calls") or b.get("calls")):
                                und = False     # an effect only one side has
                            if und:
                                skipped += 1
                                pass
                                continue
                            compared += 1
                            rep.bad("agree", key + ":" + what + ":" + show(y), hl.loc(hl.body),
                                    "%s: %s of %s is [%s] in %s but [%s] in %s" %
                                    (hl.file, what, key, show(y), hl.name, show(x), hi.name))
        if "irpos" in (a or {}) and (b or {}).get("calls"):
            for nm, synced in sorted(b["calls"]):
                rep.check("position", synced, "%s:%s" % (op, nm), hl.loc(hl.body),
                          "%s calls %s without recording the instruction position" % (hl.name, nm))
    operands(prog, rep, I, L, VK)
    rep.require("agree", 90)
    rep.require("position", 3)
    rep.count("opcodes without a handler function of their own", nohand)
    rep.count("handler evaluations compared", compared)
    rep.count("evaluations or effects not comparable", skipped)
    exits(prog, rep, L, EX, VK, OP, CC, SZ, dl)
    rep.rule("helper-names", "no two run-time helper functions of the native code share one symbol")
    seen = {}
    for v, c in sorted(L.fnenum.items()):
        nm = L.fnname(v)
        if nm.startswith("?"):
            continue
        o = seen.setdefault(nm, c)
        rep.check("helper-names", o == c, nm, fl.loc(fl.body), "%s and %s are both the function %s" % (o, c, nm))
    rep.require("helper-names", 25)
    sticky(prog, rep)


def sticky(prog, rep):
    """An overflow noticed in one turn of a loop is not forgotten in the next."""
    rep.rule("sticky", "an overflow found in one iteration of a loop is accumulated, or ends the loop")
    for f in prog.fns:
        if not f.file.startswith("src/jit/"):
            continue
        for l in f.walk():
            if f.kind(l) not in ("for", "while", "do"):
                continue
            if f.kind(l) == "do" and any(f.const(k) == 0 for k in f.kids(l) if k >= 0):
                continue
            inside = set(f.walk(l))
            for n in inside:
                if f.kind(n) != "asg" or f.pay(n) not in ("=", "|="):
                    continue
                if not any((f.callee(c) or "").endswith("_overflow") for c in f.calls(root=f.kids(n)[1])):
                    continue
                v = f.var_of(f.kids(n)[0])
                if v is None:
                    continue
                if any(f.kind(m) == "decl" and any(w == v for w, _ in f.pay(m)) for m in inside):
                    continue      # lives for one iteration only
                good = f.pay(n) == "|=" or any(f.kind(m) == "var" and f.pay(m) == v for m in f.walk(f.kids(n)[1]))
                if not good:
                    for m in inside:
                        if f.kind(m) in ("if", "while", "for", "do"):
                            for c in f.kids(m)[:1] if f.kind(m) != "do" else f.kids(m)[-1:]:
                                if c >= 0 and any(f.kind(x) == "var" and f.pay(x) == v for x in f.walk(c)):
                                    good = True
                rep.check("sticky", good, "%s:%s" % (f.name, f.varname(v)), f.loc(n),
                          "%s: '%s' forgets the overflow of an earlier iteration" % (f.name, f.varname(v)))
        if any(True for _ in f.calls("LLVMAddIncoming")):
            loop_phis(prog, rep, f)


def loop_phis(prog, rep, f):
    defs = {}
    for n in f.walk():
        if f.kind(n) == "decl":
            for v, i in f.pay(n):
                if i >= 0:
                    defs.setdefault(v, []).append(f.skip_casts(f.unwrap(i)))
        elif f.kind(n) == "asg" and f.var_of(f.kids(n)[0]) is not None:
            defs.setdefault(f.var_of(f.kids(n)[0]), []).append(f.skip_casts(f.unwrap(f.kids(n)[1])))
    inc = {}
    for c in f.calls("LLVMAddIncoming"):
        a = f.args(c)
        p, arr = f.var_of(f.skip_casts(f.unwrap(a[0]))), f.var_of(f.skip_casts(f.unwrap(a[1])))
        d = defs.get(arr, [])
        if p is None or len(d) != 1 or f.kind(d[0]) not in ("init", "complit"):
            continue
        inc.setdefault(p, []).extend(f.var_of(f.skip_casts(f.unwrap(k))) for k in f.kids(d[0]) if k >= 0)

    def single(v):
        d = defs.get(v, [])
        return d[0] if len(d) == 1 else None

    def operands_of(d):
        return [f.var_of(f.skip_casts(f.unwrap(a))) for a in f.args(d)[1:3]]

    def carries(v, seen=()):
        """Is v an overflow bit, or made of one?"""
        d = single(v) if v is not None else None
        if d is None or v in seen or f.kind(d) != "call":
            return False
        nm = f.callee(d)
        if nm == "LLVMBuildExtractValue":
            return f.const(f.args(d)[2]) == 1
        if nm == "LLVMBuildOr":
            return any(carries(x, seen + (v,)) for x in operands_of(d))
        if nm == "LLVMBuildPhi":
            return any(carries(x, seen + (v,)) for x in inc.get(v, ()) if x is not None)
        return False

    def keeps(v, p, seen=()):
        if v == p:
            return True
        d = single(v) if v is not None else None
        if d is None or v in seen or f.kind(d) != "call":
            return False
        nm = f.callee(d)
        if nm == "LLVMBuildOr":
            return any(keeps(x, p, seen + (v,)) for x in operands_of(d))
        if nm == "LLVMBuildPhi":
            return bool(inc.get(v)) and all(keeps(x, p, seen + (v,)) for x in inc[v])
        return False

    def reaches(v, p, seen=()):
        """Does computing v involve p (so the edge that brings v is a back edge)?"""
        if v == p:
            return True
        d = single(v) if v is not None else None
        if d is None or v in seen or f.kind(d) != "call":
            return False
        subs = [f.pay(x) for a in f.args(d) for x in f.walk(a) if f.kind(x) == "var"] + list(inc.get(v, ()))
        for a in list(subs):
            e = single(a) if a is not None else None
            if e is not None and f.kind(e) in ("init", "complit"):
                subs += [f.pay(x) for x in f.walk(e) if f.kind(x) == "var"]
        return any(x is not None and reaches(x, p, seen + (v,)) for x in subs)

    for p, vs in sorted(inc.items()):
        for v in vs:
            if v is None or not carries(v, (p,)):
                continue
            # the other incoming values of a loop header do not depend on the loop
            others = [x for x in vs if x != v]
            if any(carries(x, (p,)) or reaches(x, p) for x in others) or not any(
                    single(x) is not None and f.kind(single(x)) == "call"
                    and "llvm_int1" in (f.callee(single(x)) or "") or x is not None
                    and single(x) is not None and (f.callee(single(x)) if f.kind(single(x)) == "call" else "") == "LLVMConstInt"
                    for x in others):
                continue
            rep.check("sticky", keeps(v, p), "%s:%s" % (f.name, f.varname(p)), f.loc(single(v)),
                      "%s: the loop-carried overflow flag '%s' forgets the overflow of an earlier iteration" % (f.name, f.varname(p)))


def operands(prog, rep, I, L, VK):
    """How each kind of operand is fetched by the two engines."""
    rep.rule("operand", "each kind of operand denotes the same value in both engines")

    def fetch(X, f, kind):
        X.op = X.cc = X.size = 0
        X.kinds, X.flag = {1: kind}, None
        env = {v: frozenset([("A", 1)]) if "jit_value_t" in f.vartype(v) else
               frozenset([("ctx", f.vartype(v).replace("*", "").strip())]) for v in f.params}
        out = X.run(f, (env, {}, {}))
        if out is None:
            return None
        t = frozenset(resort(imm(unptr(ops.strip(x)))) for x in out[0].get("ret", ()))
        full = {x for x in t if "'disp'" in repr(x)}
        if full:    # the native code drops a zero displacement
            t -= {("V", 1)}
        return frozenset(("V", 1) if x in (("R", 1), ("scalar", 1), ("slot", ("areg", 1))) else x for x in t)

    getters = [f for f in prog.in_file(I.file) if len(f.params) == 2 and "jit_value_t" in f.vartype(f.params[1]) and
               f.ret.replace("const ", "").strip() not in ("void", "jit_scalar_t")]
    native = [f for f in prog.in_file(L.file) if f.ret == "LLVMValueRef" and len(f.params) == 3 and
              "jit_value_t" in f.vartype(f.params[2])]
    for kn in ("JIT_VALUE_REG", "JIT_VALUE_INT64", "JIT_ADDR_REG", "JIT_VALUE_DOUBLE"):
        for g in getters:
            x = fetch(I, g, VK[kn])
            if x is None or not all(deep_known(t) for t in x):
                continue
            for f in native:
                y = fetch(L, f, VK[kn])
                if y is None or not all(deep_known(t) for t in y):
                    continue
                rep.check("operand", x == y, "%s:%s:%s" % (kn, g.name, f.name), f.loc(f.body),
                          "a %s operand is [%s] in %s but [%s] in %s" % (kn, show(y), f.name, show(x), g.name))
    rep.require("operand", 5)


class Reach(absint.Interp):
    """Run-time services a function reaches, for one value of its first parameter."""
    inline_depth = 3

    def __init__(self, prog, file):
        super().__init__(prog)
        self.file = file
        self.seen = set()

    def inline(self, fn, n, name, callee):
        return callee.file == self.file and name.startswith("__nvc_")

    def call(self, fn, n, name, args, st):
        cal = self.prog.callee(fn, n) if name else None
        if cal is not None and cal.noreturn:
            return frozenset(), None
        if name and (cal is None or not self.inline(fn, n, name, cal)):
            self.seen.add(name)
            return frozenset([("call", name)]), st
        return None

    def services(self, fn, which=None):
        self.seen = set()
        env = {v: frozenset([("param", i)]) for i, v in enumerate(fn.params)}
        if which is not None:
            env[fn.params[0]] = frozenset([("const", which)])
        self.run(fn, (env, {}, {}))
        return frozenset(self.seen)


def exits(prog, rep, L, EX, VK, OP, CC, SZ, dl):
    h = dl["MACRO_EXIT"][0]
    disp = prog.fn("__nvc_do_exit")
    R, und = Reach(prog, disp.file), 0
    for name, v in sorted(EX.items(), key=lambda x: x[1]):
        L.exitval = v
        b = L.evaluate(h, OP["MACRO_EXIT"], CC["JIT_CC_NONE"], SZ["JIT_SZ_UNSPEC"],
                       {1: VK["JIT_VALUE_EXIT"], 2: VK["JIT_VALUE_REG"]})
        L.exitval = None
        syms = {c[0] for c in (b or {}).get("calls", ())}
        if len(syms) != 1:
            und += 1
            continue
        s = next(iter(syms))
        if s == disp.name:
            rep.ok("exit", name)
            continue
        f = prog.fn(s) if prog.find(s) else None
        if f is None:
            rep.bad("exit", name, h.loc(h.body), "%s calls %s, which does not exist" % (name, s))
            continue
        want, got = R.services(disp, v), R.services(f)
        rep.check("exit", want == got, name, h.loc(h.body),
                  "%s reaches %s in native code but %s through %s" %
                  (name, "/".join(sorted(got - want)) or "less", "/".join(sorted(want - got)) or "less", disp.name))
    rep.count("exits not decided", und)
    rep.require("exit", 40)
