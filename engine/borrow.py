"""Pointers into growable storage: which expressions point into an array that
some function may reallocate, and which of them are used after a call that may
move the array."""
import core
from facts import AnalysisError

REALLOC = ("xrealloc", "xrealloc_array", "realloc", "xrealloc_flex")


class Borrow:
    def __init__(self, prog):
        self.prog = prog
        self.records = set(prog.records)
        self.fields = {}       # (record element type, field) -> region
        self.direct = {}       # fn -> regions grown directly
        self.sites = 0
        self.growth = []
        self.find_growth()
        self.effects()
        self.returns()

    def is_record(self, ty):
        t = ty.replace("const ", "").replace("struct ", "").strip()
        td = self.prog.typedefs.get(t)
        if td and "*" not in td["canon"] and (td["canon"].startswith("struct") or td["canon"] in self.records or t in self.records):
            return True
        return t in self.records

    @staticmethod
    def norm(ty):
        return " ".join(ty.replace("const ", "").replace("volatile ", "").replace("struct ", "").split())

    def elem(self, ty):
        ty = self.norm(ty or "")
        return ty[:-1].strip() if ty.endswith("*") else None

    def target(self, fn, n):
        """The member expression holding the array that is reallocated."""
        n = fn.unwrap(n)
        while n >= 0 and fn.kind(n) in ("cast", "un") and (fn.kind(n) == "cast" or fn.pay(n) in ("&",)):
            n = fn.unwrap(fn.kids(n)[0])
        return n

    def find_growth(self):
        for f in self.prog.fns:
            for n in f.walk():
                if f.kind(n) != "call":
                    continue
                nm = f.callee(n)
                if nm in REALLOC or nm == "__array_resize_slow":
                    t = self.target(f, f.args(n)[0])
                    if t < 0:
                        continue
                    e = self.elem(f.type(t))
                    if e is None:
                        continue
                    reg = None
                    if f.kind(t) == "mem":
                        fld = f.pay(t)[0]
                        if self.is_record(e):
                            reg = e
                        else:
                            reg = "%s %s" % (e, fld)
                        self.fields[(e, fld)] = reg
                    elif f.kind(t) == "var" and f.varkind(f.pay(t)) not in ("p", "l") and self.is_record(e):
                        reg = e
                        self.fields[(e, f.varname(f.pay(t)))] = reg
                    if reg is not None:
                        self.direct.setdefault(f, set()).add(reg)
                        self.growth.append((f, n, reg))
        if len(self.growth) < 60:
            raise AnalysisError("only %d array growth sites found" % len(self.growth))

    # ---- instances
    def root(self, fn, n, depth=0):
        """Which instance an access path starts from: a parameter index, 'G'
        for global state, ('L', var) for a local, 'O' for some other object."""
        n = fn.unwrap(n)
        if n < 0 or depth > 12:
            return "O"
        k = fn.kind(n)
        if k in ("cast", "mem", "idx") or k == "un" and fn.pay(n) in ("&", "*"):
            return self.root(fn, fn.kids(n)[0], depth + 1)
        if k == "bin":
            return self.root(fn, fn.kids(n)[0], depth + 1)
        if k == "var":
            v = fn.pay(n)
            if fn.varkind(v) not in ("p", "l"):
                return "G"
            if v in fn.params:
                return fn.params.index(v)
            defs = self.defs(fn).get(v, [])
            if not fn.vartype(v).endswith("*"):
                return ("L", v)
            rs = {self.root(fn, d, depth + 1) for d in defs}
            if len(rs) == 1:
                return rs.pop()
            return ("L", v) if not rs else "U"
        if k == "call":
            c = self.prog.callee(fn, n)
            if c is None:
                return "O"
            if not c.params and not fn.args(n):
                return "G"
            if c.file in ("src/vcode.c",):
                return "G"
            if (c in getattr(self, "ret", {}) or len(c.N) < 120) and fn.args(n):
                return self.root(fn, fn.args(n)[0], depth + 1)
            return "O"
        if k == "stmtexpr":
            r = self.result(fn, n)
            return self.root(fn, r, depth + 1) if r is not None else "O"
        if k == "cond":
            rs = {self.root(fn, x, depth + 1) for x in fn.kids(n)[1:]}
            return rs.pop() if len(rs) == 1 else "U"
        return "O"

    def defs(self, fn):
        d = fn.cache.get("borrow-defs")
        if d is None:
            d = {}
            for n in fn.walk():
                if fn.kind(n) == "decl":
                    for v, i in fn.pay(n):
                        if i >= 0:
                            d.setdefault(v, []).append(i)
                elif fn.kind(n) == "asg" and fn.pay(n) == "=":
                    v = fn.var_of(fn.kids(n)[0])
                    if v is not None:
                        d.setdefault(v, []).append(fn.kids(n)[1])
            fn.cache["borrow-defs"] = d
        return d

    def export(self, r):
        return "O" if isinstance(r, tuple) else r

    def call_effects(self, fn, n, c):
        """(region, root in fn) grown by one call."""
        out = set()
        args = fn.args(n)
        for reg, r in self.eff.get(c, ()):
            if isinstance(r, int):
                out.add((reg, self.root(fn, args[r]) if r < len(args) else "U"))
            else:
                out.add((reg, r))
        return out

    def effects(self):
        prog = self.prog
        rev = {}
        for f in prog.fns:
            for n in f.calls():
                c = prog.callee(f, n)
                if c is not None and not prog.call_noreturn(f, n):
                    rev.setdefault(c, []).append((f, n))
        eff = {}
        self.eff = eff
        for f, n, reg in self.growth:
            eff.setdefault(f, set()).add((reg, self.export(self.root(f, self.target(f, f.args(n)[0])))))
        work = list(eff)
        while work:
            c = work.pop()
            for g, n in rev.get(c, ()):
                cur = eff.setdefault(g, set())
                new = {(reg, self.export(r)) for reg, r in self.call_effects(g, n, c)} - cur
                if new:
                    cur |= new
                    work.append(g)

    # ---- borrows
    @staticmethod
    def result(fn, n):
        """The last expression of a statement expression: its value."""
        b = fn.kids(n)
        b = fn.kids(b[-1]) if b and fn.kind(b[-1]) == "block" else b
        return b[-1] if b and b[-1] >= 0 else None

    def region_of(self, fn, n, st):
        """Region an expression of pointer type points into, and the stale
        marker of the variable it was derived from."""
        n = fn.unwrap(n)
        if n < 0:
            return None
        k = fn.kind(n)
        if k == "cast":
            return self.region_of(fn, fn.kids(n)[0], st)
        if k == "var":
            v = fn.pay(n)
            if v in st:
                return st[v][0]
            e = self.elem(fn.vartype(v))
            if fn.varkind(v) not in ("p", "l") and (e, fn.varname(v)) in self.fields:
                return self.fields[(e, fn.varname(v))]
            return None
        if k == "mem":
            t = fn.type(n) or ""
            if t.endswith("]"):
                return self.lval_region(fn, n, st)
            e = self.elem(t)
            return self.fields.get((e, fn.pay(n)[0]))
        if k == "un" and fn.pay(n) == "&":
            return self.lval_region(fn, fn.kids(n)[0], st)
        if k == "idx":
            t = fn.type(n) or ""
            return self.lval_region(fn, n, st) if t.endswith("]") else None
        if k == "bin" and fn.pay(n) in ("+", "-"):
            for x in fn.kids(n):
                r = self.region_of(fn, x, st) if (fn.type(fn.unwrap(x)) or "").endswith("*") else None
                if r:
                    return r
            return None
        if k == "cond":
            return self.region_of(fn, fn.kids(n)[1], st) or self.region_of(fn, fn.kids(n)[2], st)
        if k == "asg" and fn.pay(n) == "=":
            return self.region_of(fn, fn.kids(n)[1], st)
        if k == "call":
            c = self.prog.callee(fn, n)
            return self.ret.get(c) if c is not None else None
        if k == "stmtexpr":
            r = self.result(fn, n)
            return self.region_of(fn, r, st) if r is not None else None
        return None

    def lval_region(self, fn, n, st):
        n = fn.unwrap(n)
        if n < 0:
            return None
        k = fn.kind(n)
        if k == "mem":
            b, arrow = fn.kids(n)[0], fn.pay(n)[1]
            return self.region_of(fn, b, st) if arrow else self.lval_region(fn, b, st)
        if k == "idx":
            b = fn.kids(n)[0]
            if (fn.type(fn.unwrap(b)) or "").endswith("]"):
                return self.lval_region(fn, b, st)
            return self.region_of(fn, b, st)
        if k == "un" and fn.pay(n) == "*":
            return self.region_of(fn, fn.kids(n)[0], st)
        return None

    def returns(self):
        self.ret = {}
        changed = True
        rounds = 0
        while changed and rounds < 6:
            changed = False
            rounds += 1
            for f in self.prog.fns:
                if f in self.ret or not (f.ret or "").endswith("*") or f.cfg_raw is None:
                    continue
                st = {}
                for n in f.walk():
                    if f.kind(n) == "decl":
                        for v, i in f.pay(n):
                            if i >= 0 and f.vartype(v).endswith("*"):
                                r = self.region_of(f, i, st)
                                if r:
                                    st[v] = (r, None)
                    elif f.kind(n) == "asg" and f.pay(n) == "=":
                        v = f.var_of(f.kids(n)[0])
                        if v is not None and f.vartype(v).endswith("*"):
                            r = self.region_of(f, f.kids(n)[1], st)
                            if r:
                                st[v] = (r, None)
                for n in f.walk():
                    if f.kind(n) == "ret" and f.kids(n):
                        r = self.region_of(f, f.kids(n)[0], st)
                        if r:
                            self.ret[f] = r
                            changed = True

    # ---- per-function typestate
    def check(self, fn, report):
        ptr = [i for i, v in enumerate(fn.vars) if fn.vartype(i).endswith("*")]
        if not ptr or fn.cfg_raw is None:
            return

        def uses(e):
            """Variables whose pointee this element touches directly."""
            k = fn.kind(e)
            out = []
            if k == "mem" and fn.pay(e)[1] or k == "un" and fn.pay(e) == "*" or k == "idx":
                b = fn.unwrap(fn.kids(e)[0])
                if fn.kind(b) == "var":
                    out.append(fn.pay(b))
            elif k == "call":
                for a in fn.args(e):
                    a = fn.unwrap(a)
                    while a >= 0 and fn.kind(a) == "cast":
                        a = fn.unwrap(fn.kids(a)[0])
                    if a >= 0 and fn.kind(a) == "var":
                        out.append(fn.pay(a))
            elif k == "ret" and fn.kids(e):
                a = fn.unwrap(fn.kids(e)[0])
                if a >= 0 and fn.kind(a) == "var":
                    out.append(fn.pay(a))
            return out

        rep = [False]

        def step(st, e, b, i):
            if not isinstance(e, int):
                return st
            k = fn.kind(e)
            if rep[0]:
                for v in uses(e):
                    if v in st:
                        self.sites += 1
                        if st[v][1] is not None:
                            report(fn, e, v, st[v])
            if k == "call":
                c = self.prog.callee(fn, e)
                nm = fn.callee(e)
                g = self.call_effects(fn, e, c) if c is not None else ()
                if nm in REALLOC or nm == "__array_resize_slow":
                    g = {(r, self.root(fn, self.target(fn, fn.args(e)[0])))
                         for f2, n2, r in self.growth if f2 is fn and n2 == e}
                if g:
                    dead = [v for v in st if st[v][1] is None and
                            any(reg == st[v][0] and self.same(r, st[v][2]) for reg, r in g)]
                    if dead:
                        st = dict(st)
                        for v in dead:
                            st[v] = (st[v][0], e, st[v][2])
                return st
            if k == "decl":
                for v, init in fn.pay(e):
                    st = self.assign(fn, v, init, st)
                return st
            if k == "asg":
                v = fn.var_of(fn.kids(e)[0])
                if v is not None and fn.pay(e) == "=":
                    return self.assign(fn, v, fn.kids(e)[1], st)
            return st

        def join(a, b):
            if a == b:
                return a
            r = dict(a)
            for k, v in b.items():
                if k not in r or (r[k][1] is None and v[1] is not None):
                    r[k] = v
            return r
        ins = core.forward(fn, {}, step, None, join)
        rep[0] = True
        for b, st in ins.items():
            for i, e in enumerate(fn.cfg.blocks[b].elems):
                st = step(st, e, b, i)

    @staticmethod
    def same(a, b):
        if a == "O":
            return False
        return a == b or "U" in (a, b) or b == "O"

    def assign(self, fn, v, rhs, st):
        if not fn.vartype(v).endswith("*"):
            return st
        r = self.region_of(fn, rhs, st) if rhs >= 0 else None
        x = fn.unwrap(rhs) if rhs >= 0 else -1
        while x >= 0 and fn.kind(x) == "cast":
            x = fn.unwrap(fn.kids(x)[0])
        stale = None
        if x >= 0 and fn.kind(x) == "var" and fn.pay(x) in st:
            stale = st[fn.pay(x)][1]
        if r is None:
            if v in st:
                st = dict(st)
                del st[v]
            return st
        st = dict(st)
        st[v] = (r, stale, self.root(fn, rhs))
        return st


class Freed:
    """Pointers used after the object they point to was released."""

    def __init__(self, prog):
        self.prog = prog
        self.frees = {"free": {0}, "fclose": {0}, "closedir": {0}, "pclose": {0}, "dlclose": {0}}
        fns = [f for f in prog.fns if f.cfg_raw is not None]
        byname = {}
        self.sum = {}
        changed = True
        while changed:
            changed = False
            for f in fns:
                if f in self.sum or not any(f.vartype(p).endswith("*") for p in f.params):
                    continue
                if not any(self.released(f, n) for n in f.calls()) and not self.to_freelist(f):
                    continue
                got = self.must_free(f)
                if got:
                    self.sum[f] = got
                    changed = True
        self.sites = 0

    def released(self, fn, n):
        """Argument positions this call releases."""
        c = self.prog.callee(fn, n)
        if c is not None:
            return self.sum.get(c, ())
        return self.frees.get(fn.callee(n), ())

    def var(self, fn, n):
        n = fn.unwrap(n)
        while n >= 0 and fn.kind(n) == "cast":
            n = fn.unwrap(fn.kids(n)[0])
        if n >= 0 and fn.kind(n) == "var" and fn.varkind(fn.pay(n)) in ("p", "l"):
            return fn.pay(n)
        return None

    def key(self, fn, n):
        """A local variable, or a field path from one."""
        n = fn.unwrap(n)
        while n >= 0 and fn.kind(n) == "cast":
            n = fn.unwrap(fn.kids(n)[0])
        if n < 0:
            return None
        if fn.kind(n) == "var" and fn.varkind(fn.pay(n)) in ("p", "l"):
            return (fn.pay(n),)
        if fn.kind(n) == "mem":
            b = self.key(fn, fn.kids(n)[0])
            return b + (fn.pay(n)[0],) if b else None
        return None

    def to_freelist(self, fn):
        r = fn.cache.get("freelist")
        if r is None:
            r = fn.cache["freelist"] = {}
            for n in fn.walk():
                if fn.kind(n) == "asg" and fn.pay(n) == "=":
                    t = fn.unwrap(fn.kids(n)[0])
                    if fn.kind(t) == "mem" and fn.pay(t)[0].startswith("free_") and (fn.type(t) or "").endswith("*"):
                        v = self.var(fn, fn.kids(n)[1])
                        if v is not None and v in fn.params:
                            r[n] = v
        return r

    def must_free(self, fn):
        fl = self.to_freelist(fn)

        def step(st, e, b, i):
            if isinstance(e, int) and fn.kind(e) == "call":
                for a in self.released(fn, e):
                    if a < len(fn.args(e)):
                        v = self.var(fn, fn.args(e)[a])
                        if v is not None:
                            st = st | {v}
            elif isinstance(e, int) and fn.kind(e) == "asg":
                v = fn.var_of(fn.kids(e)[0])
                if e in fl:
                    st = st | {fl[e]}
                if v in fn.params:
                    st = st | {("w", v)}
            return st

        def edge(st, b, s, kind):
            # a null pointer needs no release
            blk = fn.cfg.blocks[b]
            if kind in (True, False) and blk.cond is not None:
                for x, t in core.atoms(fn, blk.cond, kind):
                    v = self.var(fn, x)
                    if v is not None and not t and fn.vartype(v).endswith("*"):
                        st = st | {v}
            return st
        ins = core.forward(fn, frozenset(), step, edge, lambda a, b: (a & b) | {x for x in a | b if isinstance(x, tuple)})
        out = ins.get(fn.cfg.exit)
        if out is None:
            return ()
        return frozenset(i for i, p in enumerate(fn.params)
                         if p in out and ("w", p) not in out and fn.vartype(p).endswith("*")
                         and (p in fl.values() or any(True for n in fn.calls() for a in self.released(fn, n)
                                 if a < len(fn.args(n)) and self.var(fn, fn.args(n)[a]) == p)))

    def check(self, fn, report):
        if fn.cfg_raw is None or not any(self.released(fn, n) for n in fn.calls()):
            return
        rep = [False]

        def step(st, e, b, i):
            if not isinstance(e, int):
                return st
            k = fn.kind(e)
            if rep[0] and st:
                if k == "mem" and fn.pay(e)[1] or k == "un" and fn.pay(e) == "*" or k == "idx":
                    ky = self.key(fn, fn.kids(e)[0])
                    if ky in st:
                        report(fn, e, ky, st[ky])
                elif k == "call":
                    for a in fn.args(e):
                        ky = self.key(fn, a)
                        if ky in st:
                            report(fn, e, ky, st[ky])
                elif k == "ret" and fn.kids(e):
                    ky = self.key(fn, fn.kids(e)[0])
                    if ky in st:
                        report(fn, e, ky, st[ky])
            if k == "call":
                rl = self.released(fn, e)
                if rl:
                    new = {}
                    for a in rl:
                        if a < len(fn.args(e)):
                            ky = self.key(fn, fn.args(e)[a])
                            if ky is not None:
                                new[ky] = e
                    if rep[0]:
                        self.sites += len(new)
                    if new:
                        st = dict(st)
                        st.update(new)
                elif self.prog.callee(fn, e) is not None or fn.callee(e) is None:
                    dead = [x for x in st if len(x) > 1]
                    if dead:
                        st = {x: y for x, y in st.items() if len(x) == 1}
                for a in fn.args(e):
                    a = fn.unwrap(a)
                    if fn.kind(a) == "un" and fn.pay(a) == "&":
                        ky = self.key(fn, fn.kids(a)[0])
                        if ky is not None:
                            st = self.kill(st, ky)
                return st
            if k == "decl":
                for v, init in fn.pay(e):
                    st = self.kill(st, (v,))
                return st
            if k == "asg":
                ky = self.key(fn, fn.kids(e)[0])
                if ky is not None:
                    return self.kill(st, ky)
                if fn.kind(fn.unwrap(fn.kids(e)[0])) != "var":
                    return {x: y for x, y in st.items() if len(x) == 1}
            if k == "un" and ("++" in fn.pay(e) or "--" in fn.pay(e)):
                ky = self.key(fn, fn.kids(e)[0])
                if ky is not None:
                    return self.kill(st, ky)
            return st

        def edge(st, b, s, kind):
            return st

        def join(a, b):
            if a == b:
                return a
            r = dict(a)
            r.update(b)
            return r
        ins = core.forward(fn, {}, step, edge, join)
        rep[0] = True
        for b, st in ins.items():
            for i, e in enumerate(fn.cfg.blocks[b].elems):
                st = step(st, e, b, i)

    @staticmethod
    def kill(st, ky):
        dead = [x for x in st if x[:len(ky)] == ky]
        if dead:
            st = {x: y for x, y in st.items() if x not in dead}
        return st
