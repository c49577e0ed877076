"""Provenance analysis: a forward dataflow over clang's CFG whose abstract
values are finite sets of provenance terms (where a value came from), with
context-sensitive inlining of helper functions so that extracting or merging
helpers does not change the result.  No path conditions are collected and no
solver is used; joins are unions."""
import core
from facts import AnalysisError

UNDEF = ("undef",)
TOP = ("top",)
MAXSET = 16
MAXDEPTH = 10


def depth(t):
    if not isinstance(t, tuple):
        return 0
    return 1 + max([depth(x) for x in t[1:]] or [0])


def fs(*x):
    return frozenset(x)


class Interp:
    """Subclass and override `call` (and optionally `assign`)."""

    inline_depth = 6

    def __init__(self, prog):
        self.prog = prog
        self.stack = []

    # -- hooks -------------------------------------------------------------
    def call(self, fn, n, name, args, st):
        """Return (terms, state) to model the call, or None for default."""
        return None

    def inline(self, fn, n, name, callee):
        """Whether to analyse the callee in place."""
        return False

    def assign(self, fn, n, lhs, terms, st):
        """Called for stores to non-local lvalues.  Return new state."""
        return st

    def adjust(self, fn, var, terms):
        """Called when a value is stored into a declared local variable."""
        return terms

    def on_return(self, fn, n, terms, st):
        return st

    # -- terms -------------------------------------------------------------
    def norm(self, terms):
        if len(terms) > MAXSET:
            return fs(TOP)
        out = set()
        for t in terms:
            out.add(("deep",) if depth(t) > MAXDEPTH else t)
        return frozenset(out)

    def combine(self, tag, *sets):
        import itertools
        sets = [list(s) or [UNDEF] for s in sets]
        tot = 1
        for s in sets:
            tot *= len(s)
        if tot > MAXSET:
            return fs(TOP)
        return self.norm(frozenset(tag + tuple(c) for c in itertools.product(*sets)))

    # -- evaluation ----------------------------------------------------------
    # state: (env, vals, world); vals caches evaluated calls in this frame
    def ev(self, fn, n, st):
        """Terms of expression n in state st (pure; calls were evaluated when
        reached as CFG elements and are looked up)."""
        env, vals, world = st
        if n < 0:
            return fs(UNDEF)
        k, ln, t, m, c, p, ks = fn.N[n]
        if n in vals:
            return vals[n]
        if k == "enum":
            return fs(("const", c, p))
        if c is not None and k not in ("asg", "call"):
            return fs(("const", c))
        if k == "var":
            key = p
            if key in env:
                return env[key]
            parts = sorted((x[1], v) for x, v in env.items() if isinstance(x, tuple) and x[0] == key)
            if parts and all(len(v) == 1 for _, v in parts):
                # an aggregate built field by field
                return fs(("init", tuple((f, next(iter(v))) for f, v in parts), False))
            kind = fn.varkind(p)
            if kind.startswith("g"):
                return fs(("global", fn.varname(p)))
            if kind == "s" or kind.startswith("s"):
                return fs(("static", fn.varname(p)))
            return fs(UNDEF)
        if k == "cast":
            return self.ev(fn, ks[0], st)
        if k == "fn":
            return fs(("fn", p))
        if k in ("str",):
            return fs(("str", p))
        if k == "flt":
            return fs(("flt", p))
        if k == "mem" and p[0] == "":
            return self.ev(fn, ks[0], st)      # anonymous union or struct
        if k == "mem":
            # member of a local aggregate tracked field-wise
            b = self.ev(fn, ks[0], st)
            vb = fn.var_of(ks[0]) if not p[2] else None
            if vb is not None and (vb, p[0]) in env:
                return env[(vb, p[0])]
            out = set()
            for x in b:
                if x[0] == "init":
                    hit = [v for f, v in x[1] if f == p[0]]
                    if hit:
                        out.add(hit[0])
                    elif len(x[1]) == 1 and x[2]:
                        out.add(x[1][0][1])      # union: other view of the same bits
                    else:
                        out.add(("const", 0))
                else:
                    out.add(("mem", x, p[0]))
            return self.norm(frozenset(out))
        if k == "un":
            if p == "*":
                b = self.ev(fn, ks[0], st)
                return self.norm(frozenset(x[1] if x[0] == "addr" else ("deref", x) for x in b))
            if p == "&":
                b = self.ev(fn, ks[0], st)
                return self.norm(frozenset(x[1] if x[0] == "deref" else ("addr", x) for x in b))
            if p in ("post++", "post--", "pre++", "pre--"):
                return self.combine(("un", p), self.ev(fn, ks[0], st))
            return self.combine(("un", p), self.ev(fn, ks[0], st))
        if k == "bin":
            if p == ",":
                return self.ev(fn, ks[1], st)
            a, b = self.ev(fn, ks[0], st), self.ev(fn, ks[1], st)
            if len(a) == 1 and len(b) == 1:
                x, y = next(iter(a)), next(iter(b))
                if x[0] == "const" and y[0] == "const":
                    f = self.fold(p, x[1], y[1])
                    if f is not None:
                        return fs(("const", f))
                if p == "+" and y[0] == "const" and y[1] == 0:
                    return a
            return self.combine(("bin", p), a, b)
        if k == "idx":
            return self.combine(("idx",), self.ev(fn, ks[0], st), self.ev(fn, ks[1], st))
        if k == "cond":
            cv = self.truth(fn, ks[0], st)
            if cv is True:
                return self.ev(fn, ks[1], st)
            if cv is False:
                return self.ev(fn, ks[2], st)
            return self.norm(self.ev(fn, ks[1], st) | self.ev(fn, ks[2], st))
        if k == "elvis":
            return self.norm(self.ev(fn, ks[0], st) | self.ev(fn, ks[1], st))
        if k == "asg":
            return self.ev(fn, ks[0], st)
        if k == "init":
            names = p or []
            vals_ = [self.ev(fn, x, st) for x in ks]
            ty = fn.type(n) or ""
            isu = len(ks) == 1 and len(names) == 1
            if all(len(v) == 1 for v in vals_):
                return fs(("init", tuple((names[i] if i < len(names) else i, next(iter(v)))
                                         for i, v in enumerate(vals_)), isu))
            if isu:
                return frozenset(("init", ((names[0], v),), True) for v in vals_[0])
            return fs(("initlist", n))
        if k == "complit":
            return self.ev(fn, ks[0], st)
        if k == "call":
            return fs(("call", p))
        if k == "zero":
            return fs(("const", 0))
        if k == "stmtexpr":
            # value of the last expression of the block
            blk = ks[0]
            last = fn.kids(blk)[-1] if fn.kids(blk) else -1
            return self.ev(fn, last, st) if last >= 0 else fs(TOP)
        return fs(("opaque", k))

    def fold(self, op, a, b):
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "==": lambda: int(a == b), "!=": lambda: int(a != b),
                    "<": lambda: int(a < b), ">": lambda: int(a > b),
                    "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                    "<<": lambda: a << b if 0 <= b < 64 else None,
                    ">>": lambda: a >> b if 0 <= b < 64 else None,
                    "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                    "&&": lambda: int(bool(a) and bool(b)),
                    "||": lambda: int(bool(a) or bool(b))}[op]()
        except KeyError:
            return None

    def truth(self, fn, n, st):
        n = fn.unwrap(n)
        if fn.kind(n) == "un" and fn.pay(n) == "!":
            v = self.truth(fn, fn.kids(n)[0], st)
            return None if v is None else not v
        v = self.ev(fn, n, st)
        if len(v) == 1:
            x = next(iter(v))
            if x[0] == "const" and isinstance(x[1], int):
                return x[1] != 0
            if x[0] in ("str", "fn"):
                return True
        return None

    # -- statements ----------------------------------------------------------
    def store(self, fn, lhs, terms, st):
        env, vals, world = st
        l = fn.unwrap(lhs)
        v = fn.var_of(l)
        if v is not None and not fn.varkind(v).startswith(("g", "s")):
            env = dict(env)
            env[v] = self.adjust(fn, v, terms)
            for key in [x for x in env if isinstance(x, tuple) and x[0] == v]:
                del env[key]
            return (env, vals, world)
        if fn.kind(l) == "mem" and not fn.pay(l)[2]:
            b = fn.var_of(fn.kids(l)[0])
            if b is not None and not fn.varkind(b).startswith(("g", "s")):
                env = dict(env)
                env[(b, fn.pay(l)[0])] = terms
                return (env, vals, world)
        return self.assign(fn, lhs, l, terms, st)

    def setval(self, st, n, terms):
        env, vals, world = st
        vals = dict(vals)
        vals[n] = terms
        return (env, vals, world)

    def step(self, fn, e, st):
        if not isinstance(e, int):
            return st
        k, ln, t, m, c, p, ks = fn.N[e]
        if k == "call":
            name = p
            args = [self.ev(fn, a, st) for a in ks[1:]]
            r = self.call(fn, e, name, args, st) if name else self.icall(fn, e, args, st)
            if r is not None:
                terms, st = r
                if st is None:
                    return None
                return self.setval(st, e, self.norm(terms))
            if name in ("__builtin_expect",):
                return self.setval(st, e, args[0])
            cal = self.prog.callee(fn, e) if name else None
            if cal is not None and len(self.stack) < self.inline_depth and \
                    cal not in self.stack and self.inline(fn, e, name, cal):
                terms, st2 = self.run_inline(fn, e, cal, args, st)
                if st2 is None:
                    return None
                return self.setval(st2, e, self.norm(terms))
            st = self.havoc(fn, e, name, st)
            return self.setval(st, e, self.combine(("call", name), *args) if name else fs(("icall",)))
        if k == "asg":
            if p == "=":
                return self.store(fn, ks[0], self.ev(fn, ks[1], st), st)
            cur = self.ev(fn, ks[0], st)
            return self.store(fn, ks[0], self.combine(("bin", p[:-1]), cur, self.ev(fn, ks[1], st)), st)
        if k == "un" and p in ("post++", "post--", "pre++", "pre--"):
            cur = self.ev(fn, ks[0], st)
            new = set()
            looped = self.in_loop(fn, e)
            for x in cur:
                if x[0] == "const" and isinstance(x[1], int) and not looped:
                    new.add(("const", x[1] + (1 if "++" in p else -1)))
                elif x[0] == "seq":
                    new.add(x)
                else:
                    new.add(("seq", x))
            if any(x[0] == "const" and abs(x[1]) > 40 for x in new) or len(new) > 12:
                new = {TOP}
            st = self.store(fn, ks[0], frozenset(new), st)
            return self.setval(st, e, cur if p.startswith("post") else frozenset(new))
        if k == "decl":
            for v, init in p:
                if init >= 0:
                    terms = self.ev(fn, init, st)
                    env, vals, world = st
                    env = dict(env)
                    env[v] = self.adjust(fn, v, terms)
                    st = (env, vals, world)
                else:
                    env, vals, world = st
                    if v in env:
                        env = dict(env)
                        del env[v]
                        st = (env, vals, world)
            return st
        if k == "ret":
            terms = self.ev(fn, ks[0], st) if ks else fs(("void",))
            st = self.on_return(fn, e, terms, st)
            if st is None:
                return None
            env, vals, world = st
            env = dict(env)
            env["ret"] = terms
            return (env, vals, world)
        return st

    def in_loop(self, fn, n):
        c = fn.cache.setdefault("inloop", {})
        if n not in c:
            x = n
            r = False
            while x >= 0:
                if fn.kind(x) in ("for", "while", "do"):
                    r = True
                    break
                x = fn.parent(x)
            c[n] = r
        return c[n]

    def icall(self, fn, n, args, st):
        return None

    def havoc(self, fn, n, name, st):
        """&local passed to an unmodelled call: its value becomes an output."""
        env = None
        for i, a in enumerate(fn.args(n)):
            a = fn.unwrap(a)
            if fn.kind(a) == "un" and fn.pay(a) == "&":
                v = fn.var_of(fn.kids(a)[0])
                if v is not None and not fn.varkind(v).startswith(("g", "s")):
                    env = dict(st[0]) if env is None else env
                    env[v] = fs(("out", name, i))
        return st if env is None else (env, st[1], st[2])

    def joinw(self, key, a, b):
        return self.norm(a | b)

    def join(self, a, b):
        if a is b:
            return a
        out = []
        for i in range(3):
            x, y = a[i], b[i]
            if x is y or x == y:
                out.append(x)
                continue
            d = {}
            for key in x.keys() | y.keys():
                u = x.get(key)
                v = y.get(key)
                if i == 1:
                    # cached call values: keep only where still meaningful
                    d[key] = self.norm((u or fs()) | (v or fs()))
                    continue
                if u is None:
                    u = fs(UNDEF)
                if v is None:
                    v = fs(UNDEF)
                d[key] = u if u == v else (self.norm(u | v) if i == 0 else self.joinw(key, u, v))
            out.append(d)
        return tuple(out)

    def run_inline(self, fn, n, cal, args, st):
        env = {}
        for i, pv in enumerate(cal.params):
            env[pv] = args[i] if i < len(args) else fs(UNDEF)
        exit_ = self.run(cal, (env, {}, st[2]))
        if exit_ is None:
            return fs(), None
        ret = exit_[0].get("ret", fs(("void",)))
        return ret, (st[0], st[1], exit_[2])

    def run(self, fn, st):
        """Analyse fn from the given state; returns the joined exit state."""
        self.stack.append(fn)
        try:
            def tr(s, e, b, i):
                return self.step(fn, e, s)

            def ed(s, b, succ, kind):
                blk = fn.cfg.blocks[b]
                if kind is True or kind is False:
                    v = self.truth(fn, blk.cond, s)
                    if v is not None and v != kind:
                        return None
                    return self.refine(fn, blk.cond, kind, s)
                if isinstance(kind, tuple):
                    v = self.ev(fn, blk.cond, s)
                    cs = {x[1] for x in v if x[0] == "const"}
                    if len(cs) == len(v) and cs:
                        if kind[0] == "case" and not (cs & set(kind[1])):
                            return None
                        if kind[0] == "notcase" and cs <= set(kind[1]):
                            return None
                    return self.refine(fn, blk.cond, kind, s)
                return s
            ins = core.forward(fn, st, tr, ed, self.join)
            return ins.get(fn.cfg.exit)
        finally:
            self.stack.pop()

    def refine(self, fn, cond, kind, st):
        return st
