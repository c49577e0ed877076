"""Abstract evaluation of per-opcode handlers into a common term language, for
the interpreter (C semantics) and the LLVM generator (builder semantics).
Each handler is evaluated once per (condition code, size) with those two
operand fields as constants; everything else stays symbolic provenance."""
import re
import absint, core, layers
from absint import fs, UNDEF, TOP
from facts import AnalysisError

BOOL = {"accovf", "==", "!=", "<", ">", "<=", ">=", "!", "ovf", "F", "f==", "f!=", "f<", "f>", "f<=", "f>=", "&&", "||"}
WIDTH = {"char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
         "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
         "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
         "unsigned long long": (64, False), "_Bool": (1, False), "bool": (1, False), "unsigned": (32, False)}


def isbool(t):
    return t[0] in BOOL or (t[0] == "&" and isbool(t[1]) and isbool(t[2])) or \
        (t[0] == "const" and t[1] in (0, 1))


def conv(t, frm, to):
    """Integer conversion of term t from (bits, signed) to (bits, signed)."""
    if frm is None or to is None or t[0] in ("undef", "top", "deep"):
        return t
    if t[0] in ("const", "ci"):
        return t
    if isbool(t):
        return t
    if to[0] == 1 and frm[0] > 1:
        return ("!=", t, ("const", 0))
    if to[0] < frm[0]:
        return tr(to[0], t)
    if to[0] > frm[0]:
        return ext("s" if frm[1] else "u", frm[0], t)
    return t


def tr(bits, t):
    if t[0] in ("sx", "zx") and t[1] == bits:
        return t[2]
    if t[0] in ("sx", "zx") and t[1] > bits:
        return tr(bits, t[2])
    if t[0] == "tr" and t[1] >= bits:
        return tr(bits, t[2])
    return ("tr", bits, t)


def ext(how, bits, t):
    if isbool(t):
        return t
    return ("sx" if how == "s" else "zx", bits, t)


COMM = {"+", "*", "&", "|", "^", "f+", "f*", "==", "!=", "f==", "f!="}


def mk(op, *a):
    """Build a term with light canonicalisation."""
    a = list(a)
    if op in COMM and len(a) == 2:
        a.sort(key=repr)
    if op == "!":
        x = a[0]
        if x[0] == "!":
            return x[1] if isbool(x[1]) else ("!=", x[1], ("const", 0))
        neg = {"==": "!=", "!=": "=="}
        if x[0] in neg:
            return (neg[x[0]],) + x[1:]
        if not isbool(x):
            return mk("==", x, ("const", 0))
    if op in (">", ">=", "f>", "f>="):
        return mk({">": "<", ">=": "<=", "f>": "f<", "f>=": "f<="}[op], a[1], a[0])
    if op == "-" and len(a) == 2:
        # x - (x / y) * y is the remainder
        x, m = a
        if m[0] == "*":
            for q, y in ((m[1], m[2]), (m[2], m[1])):
                if q == ("/", x, y):
                    return ("rem", x, y)
    return (op,) + tuple(a)


def strip(t):
    """Drop constant widths."""
    if not isinstance(t, tuple):
        return t
    if t[0] == "ci":
        return ("const", t[2])
    if t[0] == "const":
        return ("const", t[1])
    return tuple(strip(x) for x in t)


class Handler(absint.Interp):
    """Common modelling of the instruction operand structure."""
    inline_depth = 9

    def __init__(self, prog, file):
        super().__init__(prog)
        self.file = file
        self.cc = self.size = self.op = None
        self.kinds = {}
        self.flag = None
        self.cases = set()
        self.exitval = None

    def ity(self, ty):
        if ty is None:
            return None
        ty = ty.replace("const ", "").replace("volatile ", "").strip()
        for _ in range(6):
            if ty in WIDTH:
                return WIDTH[ty]
            m = re.match(r"^(u?)int(8|16|32|64)_t$", ty)
            if m:
                return (int(m.group(2)), m.group(1) == "")
            if ty in ("size_t", "uintptr_t"):
                return (64, False)
            if ty in ("ptrdiff_t", "intptr_t", "ssize_t"):
                return (64, True)
            if ty.startswith("enum ") or ty in self.prog.enums:
                return (32, False)
            td = self.prog.typedefs.get(ty)
            if td is None or td["type"] == ty:
                return None
            ty = td["type"]
        return None

    def isreal(self, ty):
        return ty is not None and ty.replace("const ", "").strip() in ("double", "float")

    def isptr(self, ty):
        return ty is not None and ty.strip().endswith("*")

    def norm(self, terms):
        if len(terms) > 24:
            return fs(TOP)
        return frozenset(("deep",) if absint.depth(t) > 14 else t for t in terms)

    def map(self, f, *sets):
        import itertools
        tot = 1
        for s in sets:
            tot *= max(1, len(s))
        if tot > 48:
            return fs(TOP)
        return self.norm(frozenset(f(*c) for c in itertools.product(*[list(s) or [UNDEF] for s in sets])))

    def ty_of(self, fn, n):
        """Integer type of an operand expression (after promotion rules)."""
        return self.ity(fn.type(n))

    def field(self, t, name):
        """Member of an instruction or operand, or None."""
        if t in (("ir",), ("deref", ("ir",))):
            if name == "cc":
                return ("const", self.cc)
            if name == "size":
                return ("const", self.size)
            if name == "op":
                return ("const", self.op)
            if name == "result":
                return ("res",)
            if name in ("arg1", "arg2"):
                return ("A", int(name[3:]))
            return ("irfield", name)
        if t[0] == "A":
            if name == "kind":
                return ("const", self.kinds[t[1]])
            if name == "reg":
                return ("areg", t[1])
            if name == "exit" and self.exitval is not None and t[1] == 1:
                return ("const", self.exitval)
            return ("aimm", t[1], "disp" if name == "disp" else "v")
        return None

    def cast_to(self, fn, n, terms, src):
        to, frm = self.ity(fn.type(n)), self.ty_of(fn, src)
        if self.isreal(fn.type(n)) and frm is not None:
            return self.map(lambda t: t if t[0] in ("const", "flt") else ("sitofp" if frm[1] else "uitofp", t), terms)
        if to is not None and self.isreal(fn.type(src)):
            return self.map(lambda t: ("fptosi" if to[1] else "fptoui", t), terms)
        if to is None or frm is None:
            return terms
        return self.map(lambda t: conv(t, frm, to), terms)

    def convert(self, terms, ty, src_ty):
        to, frm = self.ity(ty), self.ity(src_ty)
        if self.isreal(ty) and frm is not None:
            return self.map(lambda t: t if t[0] in ("const", "flt") else ("sitofp" if frm[1] else "uitofp", t), terms)
        if to is not None and self.isreal(src_ty):
            return self.map(lambda t: ("fptosi" if to[1] else "fptoui", t), terms)
        if to is None or frm is None:
            return terms
        return self.map(lambda t: conv(t, frm, to), terms)

    def static_elem(self, fn, v, i):
        """Element i of a static local array initialiser."""
        for n in fn.walk():
            if fn.kind(n) == "decl":
                for var, init in fn.pay(n):
                    if var == v and init >= 0 and fn.kind(init) == "init":
                        ks = fn.kids(init)
                        if isinstance(i, int) and 0 <= i < len(ks):
                            x = fn.unwrap(ks[i])
                            return fn.pay(x) if fn.kind(x) == "str" else fn.const(x)
        return None

    def ev(self, fn, n, st):
        env, vals, world = st
        if n < 0:
            return fs(UNDEF)
        k, ln, t, m, c, p, ks = fn.N[n]
        if n in vals:
            return vals[n]
        if k == "mem" and p[0] != "":
            base = self.ev(fn, ks[0], st)
            hit = [self.field(x, p[0]) for x in base]
            if base and all(h is not None for h in hit):
                return frozenset(hit)
            r = self.member(fn, n, base, p[0], st)
            if r is not None:
                return r
        if c is not None and k not in ("asg", "call", "enum"):
            return fs(("const", c))
        if k == "cast":
            return self.cast_to(fn, n, self.ev(fn, ks[0], st), ks[0])
        if k == "idx":
            r = self.index(fn, n, self.ev(fn, ks[0], st), self.ev(fn, ks[1], st), st)
            if r is not None:
                return r
            v = fn.var_of(ks[0])
            if v is not None and fn.varkind(v) not in ("l", "p"):
                out = set()
                for i in self.ev(fn, ks[1], st):
                    e = self.static_elem(fn, v, i[1]) if i[0] == "const" else None
                    if e is None:
                        out = None
                        break
                    out.add(("str", e) if isinstance(e, str) else ("const", e))
                if out:
                    return frozenset(out)
        if k == "bin" and p not in (",", "&&", "||"):
            a, b = self.ev(fn, ks[0], st), self.ev(fn, ks[1], st)
            if len(a) == 1 and len(b) == 1:
                x, y = next(iter(a)), next(iter(b))
                if x[0] == "const" and y[0] == "const":
                    f = self.fold(p, x[1], y[1])
                    if f is not None:
                        return fs(("const", f))
                if p == "+" and y == ("const", 0):
                    return a
            ta, tb = fn.type(ks[0]), fn.type(ks[1])
            if self.isreal(ta) or self.isreal(tb):
                return self.map(lambda x, y: mk("f" + p, x, y),
                                self.convert(a, "double", ta), self.convert(b, "double", tb))
            ia, ib = self.ity(ta), self.ity(tb)
            if ia and ib:
                w = (32, True)
                for i in (ia, ib):
                    if i[0] > w[0] or (i[0] == w[0] and not i[1]):
                        w = i
                if p in ("<<", ">>"):
                    w = max(ia, (32, True))
                    a = self.map(lambda x: conv(x, ia, w), a)
                    op = p if p == "<<" else (">>s" if w[1] else ">>u")
                    return self.map(lambda x, y: mk(op, x, y), a, b)
                a = self.map(lambda x: conv(x, ia, w), a)
                b = self.map(lambda x: conv(x, ib, w), b)
                op = p
                if not w[1] and p in ("<", ">", "<=", ">=", "/", "%"):
                    op = "u" + p
                if p == "%":
                    op = "rem" if w[1] else "urem"
                return self.map(lambda x, y: mk(op, x, y), a, b)
            return self.map(lambda x, y: mk(p, x, y), a, b)
        if k == "un" and p == "!":
            return self.map(lambda x: ("const", int(not x[1])) if x[0] == "const" else mk("!", x),
                            self.ev(fn, ks[0], st))
        if k == "un" and p == "-":
            return self.map(lambda x: ("fneg" if self.isreal(fn.type(n)) else "neg", x), self.ev(fn, ks[0], st))
        if k == "un" and p == "*":
            r = self.load(fn, n, self.ev(fn, ks[0], st), st)
            if r is not None:
                return r
        if k == "cond":
            cv = self.truth(fn, ks[0], st)
            if cv is None and any(fn.kind(x) == "mem" and fn.pay(x)[0] == "ptr_mask" for x in fn.walk(ks[0])):
                return self.ev(fn, ks[2], st)    # the register is not known to hold a pointer
            if cv is None:
                return self.map(lambda x, a, b: a if a == b else sel(x, a, b), self.ev(fn, ks[0], st),
                                self.ev(fn, ks[1], st), self.ev(fn, ks[2], st))
        return super().ev(fn, n, st)

    def member(self, fn, n, base, name, st):
        return None

    def index(self, fn, n, base, idx, st):
        return None

    def load(self, fn, n, ptr, st):
        return None

    def step(self, fn, e, st):
        # declared type conversions on stores
        if isinstance(e, int) and fn.kind(e) == "decl":
            for v, init in fn.pay(e):
                env, vals, w = st
                env = dict(env)
                if init >= 0:
                    t = self.ev(fn, init, st)
                    env[v] = self.convert(t, fn.vartype(v), fn.type(init))
                else:
                    env.pop(v, None)
                st = (env, vals, w)
            return st
        if isinstance(e, int) and fn.kind(e) == "asg" and fn.pay(e) != "=":
            l, r = fn.kids(e)
            op = fn.pay(e)[:-1]
            cur, add = self.ev(fn, l, st), self.ev(fn, r, st)
            if op in ("|", "&") and self.ity(fn.type(r)) is not None:
                t = self.map(lambda x, y: mk(op, x, y), cur, add)
            else:
                t = self.map(lambda x, y: mk(op, x, y), cur, add)
            return self.store(fn, l, t, st)
        if isinstance(e, int) and fn.kind(e) == "asg":
            l, r = fn.kids(e)
            t = self.convert(self.ev(fn, r, st), fn.type(l), fn.type(r))
            return self.store(fn, l, t, st)
        return super().step(fn, e, st)

    def inline(self, fn, n, name, callee):
        return callee.file == self.file or callee.file.endswith(("src/jit/jit-priv.h", "src/util.h"))

    def in_loop(self, fn, n):
        c = fn.cache.setdefault("inrealloop", {})
        if n not in c:
            x, r = fn.parent(n), False
            while x >= 0:
                k = fn.kind(x)
                if k in ("for", "while") or (k == "do" and fn.const(fn.unwrap(fn.kids(x)[1])) != 0):
                    r = True
                    break
                x = fn.parent(x)
            c[n] = r
        return c[n]

    def put(self, st, key, terms):
        env, vals, w = st
        w = dict(w)
        w[key] = terms
        return (env, vals, w)

    def putx(self, st, key, terms):
        """Accumulate an effect."""
        env, vals, w = st
        w = dict(w)
        w[key] = w.get(key, fs()) | terms
        return (env, vals, w)

    def joinw(self, key, a, b):
        if key in ("res", "flags"):
            return a | b
        return (a | b) - {UNDEF}

    def evaluate(self, h, op, cc, size, kinds, flag=None):
        self.op, self.cc, self.size, self.kinds, self.flag = op, cc, size, kinds, flag
        env = {}
        for v in h.params:
            ty = h.vartype(v)
            env[v] = fs(("ir",)) if "jit_ir_t" in ty else fs(("ctx", ty.replace("*", "").replace("const", "").strip()))
        out = self.run(h, (env, {}, {}))
        return None if out is None else {k: frozenset(strip(t) for t in v) for k, v in out[2].items()}


def sel(c, a, b):
    if c[0] == "!":
        return sel(c[1], b, a)
    if c[0] == "const":
        return a if c[1] else b
    if c[0] in ("<=", "u<="):
        return ("sel", (c[0][:-1], c[2], c[1]), b, a)
    if c[0] == "!=":
        return ("sel", ("==",) + c[1:], b, a)
    return ("sel", c, a, b)


# ------------------------------------------------------------ the interpreter

class CInterp(Handler):
    OVF = re.compile(r"__builtin_(add|sub|mul)_overflow$")

    def __init__(self, prog, file="src/jit/jit-interp.c"):
        super().__init__(prog, file)
        self.exp = set()

    def is_regs(self, t):
        return t[0] == "mem" and t[2] == "regs"

    def member(self, fn, n, base, name, st):
        out = set()
        for b in base:
            if b[0] == "slot":
                cur = st[2].get("res") if b[1] == ("res",) else None
                k = 0 if b[1] == ("res",) else b[1][1]
                out.add(("R", k) if name == "real" else ("V", k))
            elif b[0] == "scalar":
                out.add(("R", b[1]) if name == "real" else ("V", b[1]))
            elif b[0] == "ctx" and name == "flags":
                if self.flag is not None:
                    out.add(("const", self.flag))
                else:
                    return st[2].get("flags", fs(("F",)))
            elif b == ("V", 1) or b == ("V", 2):
                out.add(("R", b[1]) if name == "real" else b)
            else:
                return None
        return frozenset(out)

    def index(self, fn, n, base, idx, st):
        out = set()
        for b in base:
            for i in idx:
                if self.is_regs(b) and i[0] in ("areg", "res"):
                    out.add(("slot", i))
                else:
                    return None
        return frozenset(out)

    def load(self, fn, n, ptr, st):
        i = self.ity(fn.type(n))
        if i is None:
            return None
        if all(x[0] in ("V", "+") for x in ptr):
            return self.map(lambda x: ("ld", i[0], x), ptr)
        return None

    def slotval(self, terms):
        return frozenset((("V", 0 if t[1] == ("res",) else t[1][1]) if t[0] == "slot" else t) for t in terms)

    def step(self, fn, e, st):
        return super().step(fn, e, st)

    def assign(self, fn, lhs, l, terms, st):
        k = fn.kind(l)
        terms = self.slotval(terms)
        if k == "mem":
            base = self.ev(fn, fn.kids(l)[0], st)
            name = fn.pay(l)[0]
            if any(b[0] == "slot" and b[1] == ("res",) for b in base):
                return self.put(st, "res", terms)
            if any(b[0] == "slot" for b in base):
                return self.putx(st, "clobber", terms)
            if any(b[0] == "ctx" for b in base):
                if name == "flags":
                    return self.put(st, "flags", terms)
                if name == "pc":
                    return self.put(st, "pc", terms)
                return st
            if name == "irpos":
                return self.put(st, "irpos", fs(("synced",)))
            return st
        if k == "idx":
            base = self.ev(fn, fn.kids(l)[0], st)
            idx = self.ev(fn, fn.kids(l)[1], st)
            if any(self.is_regs(b) for b in base):
                if ("res",) in idx:
                    return self.put(st, "res", terms)
                return self.putx(st, "clobber", terms)
            if any(b[0] == "mem" and b[2] == "args" for b in base):
                return self.putx(st, "arg", self.map(lambda i, t: ("st", i, t), idx, terms))
            return st
        if k == "un" and fn.pay(l) == "*":
            p = self.ev(fn, fn.kids(l)[0], st)
            i = self.ity(fn.type(l))
            if i is not None:
                if any(x[0] in ("seq", "top", "deep") for x in p) or self.in_loop(fn, lhs):
                    return self.putx(st, "fill", self.map(lambda v: (i[0], v), terms))
                return self.put(st, "store", self.map(lambda x, v: (i[0], x, v), p, terms))
        return st

    def call(self, fn, n, name, args, st):
        m = self.OVF.match(name or "")
        if m:
            op = {"add": "+", "sub": "-", "mul": "*"}[m.group(1)]
            a = fn.unwrap(fn.args(n)[2])
            v = fn.var_of(fn.kids(a)[0]) if fn.kind(a) == "un" and fn.pay(a) == "&" else None
            if v is None:
                raise AnalysisError("%s: cannot find the destination of %s" % (fn.loc(n), name))
            i = self.ity(fn.vartype(v))
            self.exp.add((op, "s" if i[1] else "u", i[0]))
            if self.in_loop(fn, n):
                # iterated accumulation: only the operation is tracked
                env = dict(st[0])
                env[v] = fs(("acc", "s" if i[1] else "u", i[0]))
                return fs(("accovf",)), (env, st[1], st[2])
            ops = []
            for x, ax in zip(fn.args(n)[:2], args[:2]):
                t = self.ity(fn.type(x))
                ops.append(ax)
            comm = op in "+*"
            f = lambda h: (lambda x, y: (h, op, "s" if i[1] else "u", i[0]) +
                           (tuple(sorted((x, y), key=repr)) if comm else (x, y)))
            env = dict(st[0])
            env[v] = self.map(f("ovres"), ops[0], ops[1])
            return self.map(f("ovf"), ops[0], ops[1]), (env, st[1], st[2])
        if name in ("copysign", "pow"):
            return self.map(lambda x, y: (name, x, y), args[0], args[1]), st
        if name in ("memcpy", "memmove", "memset"):
            return fs(("void",)), self.put(st, "mem", self.map(lambda a, b, c: (name, a, b, c), *args[:3]))
        if name == "ipow":
            return self.map(lambda x, y: ("ipow", x, y), *args), st
        cal = self.prog.callee(fn, n) if name else None
        if cal is not None and self.noret(cal):
            return fs(), None
        if cal is not None and cal.file == self.file and len(cal.params) == 2 and \
                "jit_value_t" in cal.vartype(cal.params[1]):
            ret = cal.ret.replace("const ", "").strip()
            if ret == "double":
                return frozenset(("R", t[1]) if t[0] == "A" else t for t in args[1]), st
            if ret != "void":
                return frozenset((("V", t[1]) if t[0] == "A" else t) for t in args[1]), st
        if name and name.startswith("__atomic_"):
            return fs(("atomic", name)), st
        if cal is not None and cal.file != self.file:
            return self.combine(("call", name), *args), self.putx(st, "calls", fs((name, st[2].get("irpos") is not None)))
        if name is None or cal is None:
            return None
        return None

    def icall(self, fn, n, args, st):
        return fs(("icall",)), self.putx(st, "calls", fs(("*", st[2].get("irpos") is not None)))

    def noret(self, cal):
        return cal.noreturn


# ------------------------------------------------------------ LLVM builder

class LlvmGen(Handler):
    PRED = {"EQ": "==", "NE": "!=", "SGT": ">", "SLT": "<", "SLE": "<=", "SGE": ">=",
            "UGT": "u>", "ULT": "u<", "ULE": "u<=", "UGE": "u>="}
    BIN = {"Add": "+", "Sub": "-", "Mul": "*", "SDiv": "/", "UDiv": "u/", "SRem": "rem", "URem": "urem",
           "Shl": "<<", "AShr": ">>s", "LShr": ">>u", "And": "&", "Or": "|", "Xor": "^",
           "FAdd": "f+", "FSub": "f-", "FMul": "f*", "FDiv": "f/"}

    def __init__(self, prog, file="src/jit/jit-llvm.c"):
        super().__init__(prog, file)
        self.types = dict((v, c) for c, v in prog.enums["llvm_type_t"])
        self.fnenum = dict((v, c) for c, v in prog.enums["llvm_fn_t"])
        self.kindval = {}
        for f in prog.in_file(file):
            for n in f.walk():
                if f.kind(n) == "enum" and re.match(r"LLVM\w+TypeKind$", str(f.pay(n))):
                    self.kindval[f.pay(n)] = f.const(n)
        self.ptrres = False
        self.names = {}

    # -- types
    def tyname(self, i):
        nm = self.types.get(i)
        return ("ty", nm) if nm else UNDEF

    def lty(self, t):
        """LLVM type (name) of a value term."""
        h = t[0]
        if h == "ci":
            return t[1]
        if h == "const" or h == "V" or h in ("sx", "zx", "+", "-", "*", "/", "rem", "<<", ">>s", ">>u", "|", "^",
                                             "neg", "urem", "u/", "fptosi", "ipow"):
            return 64
        if h == "tr" or h == "ld":
            return t[1]
        if h == "P":
            return "ptr"
        if h == "ovres":
            return t[3]
        if isbool(t):
            return 1
        if h == "&":
            return self.lty(t[1])
        if h in ("satadd",):
            return t[2]
        if h == "acc":
            return t[2]
        if h == "flt" or (h[0] == "f" and h != "fncall") or h in ("R", "copysign", "pow", "sitofp"):
            return "double"
        if h == "sel":
            return self.lty(t[2])
        if h in ("fncall", "ptr"):
            return "ptr"
        return None

    def member(self, fn, n, base, name, st):
        if name == "outflags" and any(b[0] == "ctx" for b in base):
            if self.flag is not None:
                return fs(("const", self.flag))
            return st[2].get("flags", fs(("F",)))
        return None

    def is_outregs(self, t):
        return t[0] == "mem" and t[2] == "outregs"

    def index(self, fn, n, base, idx, st):
        out = set()
        for b in base:
            for i in idx:
                if self.is_outregs(b) and i[0] == "areg":
                    out.add(("V", i[1]))
                elif self.is_outregs(b) and i == ("res",):
                    if "res" in st[2]:
                        out |= st[2]["res"]
                    else:
                        out.add(("V", 0))
                elif b[0] == "mem" and b[2] == "types" and i[0] == "const":
                    out.add(self.tyname(i[1]))
                elif b[0] == "mem" and b[2] == "blocks":
                    out.add(("block", i))
                else:
                    return None
        return frozenset(out)

    def assign(self, fn, lhs, l, terms, st):
        k = fn.kind(l)
        if k == "idx":
            base = self.ev(fn, fn.kids(l)[0], st)
            idx = self.ev(fn, fn.kids(l)[1], st)
            if any(self.is_outregs(b) for b in base):
                if ("res",) in idx:
                    return self.put(st, "res", terms)
                return self.putx(st, "clobber", terms)
        if k == "mem" and fn.pay(l)[0] == "outflags":
            return self.put(st, "flags", terms)
        return st

    def bits_of_type(self, t):
        if t[0] == "ty":
            m = re.match(r"LLVM_INT(\d+)$", t[1])
            if m:
                return int(m.group(1))
            if t[1] == "LLVM_INTPTR":
                return 64
            if t[1] == "LLVM_PTR":
                return "ptr"
            if t[1] == "LLVM_DOUBLE":
                return "double"
            return t[1]
        if t[0] == "lty":
            return t[1]
        return None

    def getargs(self, fn, node, st):
        """The argument array passed to a call-building function."""
        v = self.ev(fn, node, st)
        for x in v:
            if x[0] == "init":
                return [e for _, e in x[1]]
        return None

    def dest(self, t):
        s = repr(t)
        if "'block'" in s:
            # an edge of the current block: edge 0 continues, edge 1.. is the target
            m = re.search(r"\('edge', \('const', (\d+)\)", s)
            if m:
                return ("edge", int(m.group(1)))
            return ("edge", "?")
        if "'ctx'" in s:
            return ("next",)
        return ("?",)

    def fnname(self, which):
        """Symbol name and element type given to runtime function `which`."""
        if which not in self.names:
            sub = LlvmNames(self.prog, self.file)
            self.names[which] = sub.resolve(which)
        return self.names[which]

    def intrinsic(self, which, a):
        nm = self.fnname(which)
        m = re.match(r"llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)$", nm)
        if m:
            op = {"add": "+", "sub": "-", "mul": "*"}[m.group(2)]
            ab = tuple(sorted(a, key=repr)) if op in "+*" else tuple(a)
            return ("pair", ("ovres", op, m.group(1), int(m.group(3))) + ab,
                    ("ovf", op, m.group(1), int(m.group(3))) + ab)
        m = re.match(r"nvc\.(s|u)exp\.with\.overflow\.i(\d+)$", nm)
        if m:
            return ("pair", ("acc", m.group(1), int(m.group(2))) + tuple(a), ("accovf",))
        m = re.match(r"llvm\.(s|u)add\.sat\.i(\d+)$", nm)
        if m:
            return ("satadd", m.group(1), int(m.group(2))) + tuple(a)
        m = re.match(r"llvm\.(pow|copysign)\.f64$", nm)
        if m:
            return (m.group(1),) + tuple(a)
        return ("fncall", nm) + tuple(a)

    def call(self, fn, n, name, args, st):
        if name is None:
            return None
        one = lambda f, *s: (self.map(f, *s), st)
        if name == "mask_test":
            return fs(("const", int(self.ptrres))), st
        if name.startswith("LLVMBuild") and name[9:] in self.BIN:
            op = self.BIN[name[9:]]
            # a logical and of two flags stays a flag
            return one(lambda a, b: mk(op, a, b), args[1], args[2])
        if name == "LLVMBuildICmp" or name == "LLVMBuildFCmp":
            pre = "LLVMInt" if name == "LLVMBuildICmp" else "LLVMReal"

            def f(p, a, b):
                s = p[2][len(pre):] if len(p) > 2 and str(p[2]).startswith(pre) else "?"
                if name == "LLVMBuildFCmp":
                    o, r = s[:1], s[1:]
                    base = {"EQ": "==", "NE": "!=", "GT": ">", "LT": "<", "GE": ">=", "LE": "<="}.get(r, "?")
                    # C comparisons are ordered, except != which is unordered
                    if o == ("U" if r == "NE" else "O"):
                        return mk("f" + base, a, b)
                    return ("f?" + s, a, b)
                return mk(self.PRED.get(s, "?" + s), a, b)
            return one(f, args[1], args[2], args[3])
        if name == "LLVMBuildNot":
            return one(lambda a: mk("!", a), args[1])
        if name == "LLVMBuildNeg":
            return one(lambda a: ("neg", a), args[1])
        if name == "LLVMBuildFNeg":
            return one(lambda a: ("fneg", a), args[1])
        if name == "LLVMBuildSelect":
            return one(lambda c, a, b: sel(c, a, b), args[1], args[2], args[3])
        if name in ("LLVMBuildSExt", "LLVMBuildZExt"):
            def f(v, ty):
                w = self.lty(v)
                if v[0] == "ci":
                    return v
                if w == 1:
                    return v if name == "LLVMBuildZExt" else ("sx1", v)
                return ("sx" if name == "LLVMBuildSExt" else "zx", w, v)
            return one(f, args[1], args[2])
        if name == "LLVMBuildTrunc":
            def f(v, ty):
                b = self.bits_of_type(ty)
                return v if b == 64 or v[0] == "ci" else tr(b, v)
            return one(f, args[1], args[2])
        if name == "LLVMBuildBitCast":
            def f(v, ty):
                b = self.bits_of_type(ty)
                if v[0] == "V" and b == "double":
                    return ("R", v[1])
                return v
            return one(f, args[1], args[2])
        if name in ("LLVMBuildIntToPtr", "LLVMBuildPointerCast"):
            return one(lambda v: v if v[0] == "ptr" else ("ptr", v), args[1])
        if name == "LLVMBuildPtrToInt":
            return one(lambda v: v[1] if v[0] == "ptr" else v, args[1])
        if name == "LLVMBuildSIToFP":
            return one(lambda v: ("sitofp", v), args[1])
        if name == "LLVMBuildUIToFP":
            return one(lambda v: ("uitofp", v), args[1])
        if name in ("LLVMBuildFPToSI", "LLVMBuildFPToUI"):
            return one(lambda v: ("fptosi" if name.endswith("SI") else "fptoui", v), args[1])
        if name in ("LLVMBuildGEP2", "LLVMBuildInBoundsGEP2"):
            ix = self.getargs(fn, fn.args(n)[3], st)
            if ix and len(ix) == 1:
                x = ix[0]
                return self.map(lambda ty, b: ("ptr", mk("+", b[1] if b[0] == "ptr" else b, x))
                                if self.bits_of_type(ty) == 8 else ("ptr", ("gep", ty, b, x)), args[1], args[2]), st
            return fs(("ptr", ("gep",))), st
        if name == "LLVMBuildLoad2":
            return one(lambda ty, p: ("ld", 64 if self.bits_of_type(ty) == "ptr" else self.bits_of_type(ty),
                                      p[1] if p[0] == "ptr" else p), args[1], args[2])
        if name == "LLVMBuildStore":
            def f(v, p):
                w = self.lty(v)
                return (w, p[1] if p[0] == "ptr" else p, v)
            t = self.map(f, args[1], args[2])
            if any("irpos" in repr(x[1]) for x in t if len(x) > 1):
                return fs(("void",)), self.put(st, "irpos", fs(("synced",)))
            return fs(("void",)), self.put(st, "store", t)
        if name == "LLVMConstInt":
            return one(lambda ty, v: ("ci", self.bits_of_type(ty), v[1] if v[0] == "const" else v), args[0], args[1])
        if name == "LLVMConstReal":
            return one(lambda v: v, args[1])
        if name == "LLVMTypeOf":
            return one(lambda v: ("lty", self.lty(v)), args[0])
        if name == "LLVMGetTypeKind":
            def f(t):
                b = self.bits_of_type(t)
                k = {"ptr": "LLVMPointerTypeKind", "double": "LLVMDoubleTypeKind"}.get(
                    b, "LLVMIntegerTypeKind" if isinstance(b, int) else None)
                return ("const", self.kindval[k]) if k in self.kindval else ("kind", t)
            return one(f, args[0])
        if name == "LLVMGetIntTypeWidth":
            return one(lambda t: ("const", self.bits_of_type(t)) if isinstance(self.bits_of_type(t), int)
                       else ("width", t), args[0])
        if name == "LLVMBuildExtractValue":
            return one(lambda p, i: p[1 + i[1]] if p[0] == "pair" and i[0] == "const" and i[1] < 2 else ("xv", p, i),
                       args[1], args[2])
        if name == "LLVMBuildMemCpy" or name == "LLVMBuildMemMove":
            nm = "memcpy" if name.endswith("Cpy") else "memmove"
            return fs(("void",)), self.putx(st, "mem", self.map(
                lambda d, s, c: (nm, unp(d), unp(s), unp(c)), args[1], args[3], args[5]))
        if name == "LLVMBuildMemSet":
            return fs(("void",)), self.putx(st, "mem", self.map(
                lambda d, v, c: ("memset", unp(d), v, unp(c)), args[1], args[2], args[3]))
        if name == "LLVMBuildCondBr":
            return fs(("void",)), self.put(st, "br", self.map(
                lambda c, a, b: (c, self.dest(a), self.dest(b)), args[1], args[2], args[3]))
        if name == "LLVMBuildBr":
            return fs(("void",)), self.put(st, "br", self.map(lambda a: (("const", 1), self.dest(a), ("next",)), args[1]))
        if name == "LLVMBuildSwitch":
            return fs(("switch",)), self.put(st, "switch", self.map(lambda v, d: (v, self.dest(d)), args[1], args[2]))
        if name == "LLVMAddCase":
            return fs(("void",)), self.putx(st, "cases", self.map(lambda v, d: (v, "block" in repr(d)), args[1], args[2]))
        if name == "LLVMSetOrdering":
            return fs(("void",)), self.putx(st, "order", frozenset(x[2] if len(x) > 2 else x for x in args[1]))
        if name == "jit_get_edge":
            return self.map(lambda i: ("edge", i), args[1]), st
        if name in ("LLVMIsConstant",):
            return fs(("isconst",)), st
        cal = self.prog.callee(fn, n)
        if cal is not None and cal.noreturn:
            return fs(), None
        if cal is not None and cal.file == self.file:
            ps = [cal.vartype(v) for v in cal.params]
            if cal.ret == "LLVMValueRef" and len(ps) == 2 and ps[1] == "llvm_fn_t":
                return frozenset(("fn", t[1]) if t[0] == "const" else ("fn", None) for t in args[1]), st
            if cal.ret == "LLVMValueRef" and len(ps) == 2 and ps[1] in ("int64_t", "int32_t", "int8_t", "intptr_t", "bool"):
                w = {"int64_t": 64, "int32_t": 32, "int8_t": 8, "intptr_t": 64, "bool": 1}[ps[1]]
                return frozenset(("ci", w, t[1] if t[0] == "const" else t) for t in args[1]), st
            if cal.ret == "LLVMValueRef" and len(ps) == 2 and ps[1] == "double":
                return args[1], st
            if cal.ret == "_Bool" or cal.ret == "bool":
                if len(ps) == 1 and ps[0] == "LLVMValueRef":
                    b = {self.lty(t) for t in args[0]}
                    if len(b) == 1:
                        return fs(("const", int(b == {"ptr"}))), st
        if name == "LLVMBuildCall2":
            a = self.getargs(fn, fn.args(n)[3], st)
            out = set()
            for f in args[2]:
                if f[0] == "fn" and f[1] is not None and a is not None:
                    out.add(self.intrinsic(f[1], [unp(x) for x in a]))
                else:
                    out.add(("fncall", "?"))
            st2 = st
            for o in out:
                if o[0] == "fncall":
                    if re.match(r"llvm\.mem(cpy|set)\.", o[1]):
                        st2 = self.putx(st2, "mem", fs(("mem" + o[1][8:11],) + o[2:5]))
                    elif o[1].startswith("nvc.memset"):
                        st2 = self.putx(st2, "fill", fs((int(o[1].rsplit("i", 1)[1]), o[3], o[2], o[4])))
                    else:
                        st2 = self.putx(st2, "calls", fs((o[1], st[2].get("irpos") is not None)))
                        st2 = self.putx(st2, "rt", fs(o[1:]))
            return frozenset(out), st2
        return None


def unp(t):
    return t[1] if t[0] == "ptr" else t


class LlvmNames(Handler):
    """Which symbol each runtime function constant is given."""
    def __init__(self, prog, file):
        super().__init__(prog, file)
        self.found = set()

    def call(self, fn, n, name, args, st):
        if name in ("LLVMAddFunction", "LLVMGetNamedFunction"):
            self.found |= {t[1] for t in args[1] if t[0] == "str"}
            return fs(("fnref",)), st
        cal = self.prog.callee(fn, n) if name else None
        if cal is not None and cal.noreturn:
            return fs(), None
        return None

    def resolve(self, which):
        cand = [f for f in self.prog.in_file(self.file) if f.ret == "LLVMValueRef" and len(f.params) == 2 and
                f.vartype(f.params[1]) == "llvm_fn_t"]
        if len(cand) != 1:
            raise AnalysisError("cannot find the runtime function table accessor")
        f = cand[0]
        self.found = set()
        self.run(f, ({f.params[0]: fs(("ctx", "obj")), f.params[1]: fs(("const", which))}, {}, {}))
        if len(self.found) != 1:
            return "?" + "/".join(sorted(self.found))
        return next(iter(self.found))
