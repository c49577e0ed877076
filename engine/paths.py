"""Disjunctive path analysis with inlining.

Every path of a function is followed with a symbolic store: variables, fields
of structures (killed when something may write them) and the outcome of the
branches taken.  Calls to the functions a client selects are followed into the
callee, so moving statements into a helper changes nothing.  Values are
uninterpreted terms; no solver is involved, an atom is true, false or unknown."""
import core
from facts import AnalysisError

UNK = None
PURE = {"__assert_fail"}


class St:
    __slots__ = ("env", "mem", "ep", "facts", "ext", "_key")

    def __init__(self, env=None, mem=None, ep=None, facts=None, ext=None):
        self.env, self.mem, self.ep = env or {}, mem or {}, ep or {}
        self.facts, self.ext = facts or {}, ext or {}
        self._key = None

    def copy(self):
        return St(dict(self.env), dict(self.mem), dict(self.ep), dict(self.facts), dict(self.ext))

    def key(self):
        if self._key is None:
            fz = lambda d: frozenset((k, v) for k, v in d.items())
            self._key = (fz(self.env), fz(self.mem), fz(self.ep), fz(self.facts), fz(self.ext))
        return self._key


def mentions(v, pred):
    if not isinstance(v, tuple):
        return False
    return pred(v) or any(mentions(x, pred) for x in v)


class Paths:
    CAP = 2000
    LIMIT = 3000000
    DEPTH = 9

    def __init__(self, prog, client):
        self.prog, self.c = prog, client
        self._wr = {}
        self.stack = []
        self.steps = 0

    # ---- what may a call write?
    def written(self, f):
        """Fields f may write (transitively); None: anything."""
        if f in self._wr:
            return self._wr[f]
        self._wr[f] = frozenset()
        out = set()
        anything = False
        for n in f.walk():
            k = f.kind(n)
            if k == "asg" or k == "un" and f.pay(n) in ("pre++", "pre--", "post++", "post--"):
                t = f.unwrap(f.kids(n)[0])
                if t >= 0 and f.kind(t) == "mem":
                    out.add(f.pay(t)[0])
            elif k == "atomic" and "load" not in str(f.pay(n)):
                for x in f.walk(f.kids(n)[0]):
                    if f.kind(x) == "mem":
                        out.add(f.pay(x)[0])
            elif k == "call":
                nm = f.callee(n)
                if nm is None:
                    anything = True
                    continue
                e = self.c.effect(nm)
                if e is not None:
                    out |= set(e)
                    if "*" in e:
                        anything = True
                    continue
                g = self.prog.callee(f, n)
                if g is not None and g.file == self.c.file:
                    w = self.written(g)
                    if w is None:
                        anything = True
                    else:
                        out |= w
        r = None if anything else frozenset(out)
        self._wr[f] = r
        return r

    # ---- places and values
    def lval(self, f, n, st):
        """The place an expression denotes."""
        n = f.unwrap(n)
        if n < 0:
            return None
        k = f.kind(n)
        if k == "var":
            return ("v", f.name, f.varname(f.pay(n)), f.pay(n))
        if k == "mem":
            fld, rec, arrow = f.pay(n)[0], f.pay(n)[1], f.pay(n)[2]
            b = f.kids(n)[0]
            if arrow:
                p = self.ev(f, b, st)
                L = self.deref(p, f.type(f.unwrap(b)))
            else:
                L = self.lval(f, b, st)
            if L is None:
                return None
            if L[0] == "*" and isinstance(L[1], tuple) and L[1][0] == "ctr" and L[1][2] == fld:
                return ("*", L[1][3]) if not (L[1][3][0] == "&") else L[1][3][1]
            return ("m", L, fld)
        if k == "un" and f.pay(n) == "*":
            return self.deref(self.ev(f, f.kids(n)[0], st), "")
        if k == "idx":
            b = self.ev(f, f.kids(n)[0], st)
            i = self.ev(f, f.kids(n)[1], st)
            return None if b is None or i is None else ("i", b, i)
        return None

    def deref(self, p, typ):
        t = typ.replace("const ", "").replace("struct ", "").strip()
        if t in self.c.singletons:
            return (self.c.singletons[t],)
        if p is None:
            return None
        if p[0] == "&":
            return p[1]
        return ("*", p)

    def load(self, P, st):
        if P is None:
            return UNK
        if P[0] == "v":
            if P in st.env:
                return st.env[P]
            return ("u",) + P[1:3]
        if P in st.mem:
            return st.mem[P]
        fld = self.field(P)
        if not self.c.tracks(fld):
            return ("s", P, 0) if size(P) < 30 else UNK
        e = (st.ep.get(("*",)), st.ep.get(fld))
        v = ("s", P, e)
        st.mem[P] = v
        st._key = None
        return v

    @staticmethod
    def field(P):
        return P[2] if P[0] == "m" else P[0]

    def ev(self, f, n, st, d=0):
        n = f.unwrap(n)
        if n < 0 or d > 14:
            return UNK
        k = f.kind(n)
        c = f.const(n)
        if k == "enum":
            return ("c", c, f.pay(n))
        if c is not None:
            return ("c", c)
        if ("r", n) in st.env and k in ("call", "atomic"):
            return st.env[("r", n)]
        if k == "fn":
            return ("fn", f.pay(n))
        if k == "var":
            return self.load(self.lval(f, n, st), st) if f.varkind(f.pay(n)).rstrip("t") in ("l", "p") else ("g", f.varname(f.pay(n)))
        if k in ("mem", "idx"):
            t = f.type(n)
            P = self.lval(f, n, st)
            if t.endswith("]"):
                return None if P is None else ("&", P)
            return self.load(P, st)
        if k == "atomic":
            p = self.ev(f, f.kids(n)[0], st, d + 1)
            if "load" in str(f.pay(n)):
                return self.load(self.deref(p, "") if p else None, st)
            return UNK
        if k == "un":
            o = f.pay(n)
            x = f.kids(n)[0]
            if o == "&":
                P = self.lval(f, x, st)
                if P is None:
                    y = f.unwrap(x)
                    return ("fn", f.pay(y)) if y >= 0 and f.kind(y) == "fn" else UNK
                if P[0] == "*":
                    return P[1]
                return ("&", P)
            if o == "*":
                return self.load(self.lval(f, n, st), st)
            if o == "!":
                t = self.truth(f, x, st)
                return ("c", int(not t)) if t is not None else self.mk("not", self.ev(f, x, st, d + 1))
            v = self.ev(f, x, st, d + 1)
            return self.mk(o, v)
        if k == "bin":
            o = f.pay(n)
            a, b = f.kids(n)
            if o == ",":
                return self.ev(f, b, st, d + 1)
            if o in ("&&", "||"):
                t = self.truth(f, n, st)
                return ("c", int(t)) if t is not None else UNK
            if o == "-":
                ctr = self.container(f, n, st)
                if ctr:
                    return ctr
            x, y = self.ev(f, a, st, d + 1), self.ev(f, b, st, d + 1)
            if o == "&" and y is not None and y[0] == "c" and y[1] in (-8, ~7 & 0xffffffff, ~7 & (2**64 - 1)):
                return self.untag(x)
            if o in ("<", ">", "<=", ">=", "==", "!="):
                t = self.truth(f, n, st)
                if t is not None:
                    return ("c", int(t))
            return self.mk(o, x, y)
        if k == "asg":
            return self.ev(f, f.kids(n)[0], st, d + 1)
        if k == "cond":
            t = self.truth(f, f.kids(n)[0], st)
            if t is None:
                return UNK
            return self.ev(f, f.kids(n)[1 if t else 2], st, d + 1)
        if k == "elvis":
            return UNK
        if k == "stmtexpr":
            ks = f.kids(f.kids(n)[0])
            if ks and f.kind(ks[-1]) not in ("decl", "ret", "block"):
                return self.ev(f, ks[-1], st, d + 1)
        return UNK

    @staticmethod
    def mk(o, *xs):
        if any(x is None for x in xs):
            return UNK
        r = ("op", o) + xs
        return r if size(r) < 60 else UNK

    @staticmethod
    def untag(x):
        if x is not None and x[0] == "op" and x[1] == "|":
            return x[2]
        return UNK if x is None else ("untag", x)

    def container(self, f, n, st):
        """(T *)((char *)p - offsetof(T, member))"""
        for y in f.walk(f.kids(n)[1]):
            if f.kind(y) == "offsetof":
                base = self.ev(f, f.kids(n)[0], st)
                return None if base is None else ("ctr", f.types[f.pay(y)[0]], f.pay(y)[1], base)
        return None

    # ---- conditions
    def truth(self, f, n, st):
        n = f.unwrap(n)
        if n < 0:
            return None
        k = f.kind(n)
        if f.const(n) is not None:
            return f.const(n) != 0
        if k == "un" and f.pay(n) == "!":
            t = self.truth(f, f.kids(n)[0], st)
            return None if t is None else not t
        if k == "bin" and f.pay(n) in ("&&", "||"):
            a, b = (self.truth(f, x, st) for x in f.kids(n))
            if f.pay(n) == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        at = self.atom(f, n, st)
        if at is None:
            return None
        (key, pol) = at
        if key == "const":
            return pol
        v = self.known(key, st)
        return None if v is None else v == pol

    def known(self, key, st):
        if key in st.facts:
            return st.facts[key]
        if key[0] == "==" and key[2][0] == "c":
            for k, v in st.facts.items():
                if v and k[0] == "==" and k[1] == key[1] and k[2][0] == "c" and k[2][1] != key[2][1]:
                    return False
        if key[0] == "nz":
            for k, v in st.facts.items():
                if v and k[0] == "==" and k[1] == key[1] and k[2][0] == "c":
                    return k[2][1] != 0
        return None

    def atom(self, f, n, st):
        """(atom, polarity): the condition holds iff the atom has that value."""
        k = f.kind(n)
        if k == "bin" and f.pay(n) in ("<", ">", "<=", ">=", "==", "!="):
            a, b = (self.ev(f, x, st) for x in f.kids(n))
            if a is None or b is None:
                return None
            return self.rel(f.pay(n), a, b)
        v = self.ev(f, n, st)
        return self.nz(v)

    def nz(self, v):
        if v is None:
            return None
        if v[0] == "c":
            return ("const", v[1] != 0)
        if v[0] == "&" or v[0] == "fn":
            return ("const", True)
        if v[0] == "op" and v[1] == "not":
            r = self.nz(v[2])
            return None if r is None else (r[0], not r[1])
        if v[0] == "op" and v[1] in ("<", ">", "<=", ">=", "==", "!="):
            return self.rel(v[1], v[2], v[3])
        return (("nz", v), True)

    def rel(self, o, a, b):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            return ("const", {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[o])
        if a[0] == "c" and b[0] != "c":
            a, b = b, a
            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
        if b[0] == "c":
            b = b[:2]
            if b[1] == 0 and o in ("==", "!="):
                r = self.nz(a)
                return None if r is None else (r[0], r[1] == (o == "!="))
            if b[1] == 0 and o == ">" and self.unsigned(a):
                return (("nz", a), True)
        if o in ("==", "!="):
            if b[0] != "c" and repr(b) < repr(a):
                a, b = b, a
            return (("==", a, b), o == "==")
        if o == ">":
            return (("<", b, a), True)
        if o == "<=":
            return (("<", b, a), False)
        return (("<", a, b), o == "<")

    def unsigned(self, v):
        return v[0] == "s" and v[1][0] == "m" and v[1][2] in self.c.unsigned

    def assume(self, f, n, val, st):
        n = f.unwrap(n)
        if n < 0:
            return st
        t = self.truth(f, n, st)
        if t is not None:
            return st if t == val else None
        k = f.kind(n)
        if k == "un" and f.pay(n) == "!":
            return self.assume(f, f.kids(n)[0], not val, st)
        if k == "bin" and f.pay(n) in ("&&", "||"):
            if (f.pay(n) == "&&") == val:
                for x in f.kids(n):
                    st = self.assume(f, x, val, st)
                    if st is None:
                        return None
                return st
            # all operands but one have the other value: the last decides
            left = [x for x in f.kids(n) if self.truth(f, x, st) is None]
            return self.assume(f, left[0], val, st) if len(left) == 1 else st
        at = self.atom(f, n, st)
        if at is None or at[0] == "const" or not self.c.relevant(at[0]):
            return st
        st = st.copy()
        st.facts[at[0]] = (at[1] == val)
        return st

    # ---- kills
    def purge(self, st, pred):
        """Forget every term that matches."""
        for d in (st.env, st.mem):
            for k in list(d):
                if mentions(d[k], pred):
                    if d is st.mem:
                        del d[k]
                    else:
                        d[k] = UNK
        for k in list(st.mem):
            if mentions(k, pred):
                del st.mem[k]
        for k in list(st.facts):
            if mentions(k, pred):
                del st.facts[k]
        st._key = None

    def clobber(self, st, fld, site, only=None):
        """Something wrote field fld (None: any) at this site."""
        for P in list(st.mem):
            if only is not None and P != only:
                continue
            if fld is None and self.c.keeps(P):
                continue
            if fld is None or self.field(P) == fld:
                del st.mem[P]
        if fld is not None and not self.c.tracks(fld):
            return
        e = ("*",) if fld is None else fld
        if only is None:
            def stale(v):
                return v[0] == "s" and len(v) == 3 and isinstance(v[2], tuple) and (v[2][0 if fld is None else 1] == site) \
                    and (fld is None or self.field(v[1]) == fld)
            self.purge(st, stale)
            st.ep[e] = site
        st._key = None

    def store(self, st, P, v, site):
        if P is None:
            return
        if P[0] == "v":
            old = st.env.get(P)
            if v is not None and old is not None and (v == old or mentions(v, lambda t: t == old)) and v != old or size(v) > 40:
                v = ("w",) + site
                self.purge(st, lambda t: t == v)
            st.env[P] = v
        else:
            fld = self.field(P)
            self.clobber(st, fld, site)
            if v is not None and self.c.tracks(fld):
                st.mem[P] = v
        st._key = None

    # ---- running
    def run(self, f, args, st, site=None):
        """[(return value, state)] at the exits of f."""
        self.stack.append(f)
        saved = {k: v for k, v in st.env.items()}
        st = st.copy()
        st.env = {}
        for i, (v, a) in enumerate(zip(f.params, args)):
            vi = v[0] if isinstance(v, (list, tuple)) else v
            st.env[("v", f.name, f.varname(vi), vi)] = a
        outs = []
        cfg = f.cfg
        rpo = {b: i for i, b in enumerate(cfg.rpo())}
        seen = {}
        work = [(cfg.entry, st)]
        while work:
            j = min(range(len(work)), key=lambda q: rpo[work[q][0]])
            b, s = work.pop(j)
            self.tidy(f, b, s)
            k = s.key()
            sk = seen.setdefault(b, set())
            if k in sk:
                continue
            sk.add(k)
            if len(sk) > self.CAP or self.steps > self.LIMIT:
                raise AnalysisError("too many paths in %s" % f.name)
            blk = cfg.blocks[b]
            cur = [s]
            for e in blk.elems:
                nxt = []
                for x in cur:
                    nxt += self.step(f, e, x)
                cur = nxt
                if not cur:
                    break
            for x in cur:
                if b == cfg.exit:
                    outs.append((x.env.get("ret"), x))
                    continue
                if blk.noret:
                    continue
                ed = cfg.edges(b)
                if not ed and b != cfg.exit:
                    outs.append((x.env.get("ret"), x))
                for t, kind in ed:
                    y = self.edge(f, blk, kind, x)
                    if y is not None:
                        y = self.c.at_edge(self, f, blk, kind, y)
                        work.append((t, y.copy()))
        self.stack.pop()
        res, have = [], set()
        for r, x in outs:
            x = x.copy()
            x.env = dict(saved)
            k = (r, x.key())
            if k not in have:
                have.add(k)
                res.append((r, x))
        return res

    def tidy(self, f, b, st):
        """Forget what nothing refers to any more."""
        live = self.live(f).get(b, ())
        for P in list(st.env):
            if P[0] == "r" or st.env[P] is None and P[0] == "v" or P[0] == "v" and P[1] == f.name and P[3] not in live and P[3] >= 0:
                if P[0] == "r" and (P[1] in self.late(f)):
                    continue
                del st.env[P]
        if st.facts:
            terms = set()

            def add(t):
                if isinstance(t, tuple):
                    terms.add(t)
                    for x in t:
                        add(x)
            for d in (st.env, st.mem):
                for v in d.values():
                    add(v)
            for k in list(st.facts):
                if not self.c.pinned(k) and not mentions(k, lambda t: t in terms and t[0] != "c"):
                    del st.facts[k]
        st._key = None

    def late(self, f):
        """Calls whose result is used outside the block they are in."""
        r = f.cache.get("paths-late")
        if r is None:
            r = set()
            for b in f.cfg.blocks.values():
                own = {e for e in b.elems if isinstance(e, int)}
                for e in list(own) + ([b.cond] if b.cond is not None and b.cond >= 0 else []):
                    for x in f.walk(e):
                        if f.kind(x) in ("call", "atomic") and x not in own:
                            r.add(x)
            f.cache["paths-late"] = r
        return r

    def live(self, f):
        """Variables read later on, at the start of every block."""
        r = f.cache.get("paths-live")
        if r is not None:
            return r
        cfg = f.cfg
        use, kill = {}, {}
        for b, blk in cfg.blocks.items():
            u, d = set(), set()
            roots = [e for e in blk.elems if isinstance(e, int)]
            if blk.cond is not None and blk.cond >= 0:
                roots.append(blk.cond)
            for e in roots:
                if f.kind(e) == "decl":
                    for v, i in f.pay(e):
                        if i is not None and i >= 0:
                            u |= {f.pay(x) for x in f.walk(i) if f.kind(x) == "var"} - d
                elif f.kind(e) == "asg" and f.pay(e) == "=" and f.kind(f.unwrap(f.kids(e)[0])) == "var":
                    u |= {f.pay(x) for x in f.walk(f.kids(e)[1]) if f.kind(x) == "var"} - d
                elif f.kind(e) != "var":
                    u |= {f.pay(x) for x in f.walk(e) if f.kind(x) == "var"} - d
            if blk.cond is not None and blk.cond >= 0 and f.kind(blk.cond) == "var":
                u.add(f.pay(blk.cond))
            use[b], kill[b] = u, d
        live = {b: set(use[b]) for b in cfg.blocks}
        ch = True
        while ch:
            ch = False
            for b, blk in cfg.blocks.items():
                for s in blk.succs:
                    if s is not None and not live[s] <= live[b]:
                        live[b] |= live[s]
                        ch = True
        f.cache["paths-live"] = live
        return live

    def edge(self, f, blk, kind, st):
        if kind in (True, False):
            if blk.cond is None or blk.cond < 0:
                return st
            return self.assume(f, blk.cond, kind, st)
        if isinstance(kind, tuple) and blk.cond is not None:
            v = self.ev(f, blk.cond, st)
            if v is None:
                return st
            if kind[0] == "case":
                if v[0] == "c":
                    return st if v[1] in kind[1] else None
                ks = [self.rel("==", v, ("c", c)) for c in kind[1]]
                tr = [self.known(k[0], st) == k[1] if self.known(k[0], st) is not None else None for k in ks]
                if all(t is False for t in tr):
                    return None
                if len(ks) == 1 and self.c.relevant(ks[0][0]):
                    st = st.copy()
                    st.facts[ks[0][0]] = ks[0][1]
                    if ks[0][0][0] == "nz":
                        st.facts[("==", v, ("c", 0))] = True
                return st
            if kind[0] == "notcase":
                if v[0] == "c":
                    return None if v[1] in kind[1] else st
                for c in kind[1]:
                    if self.known(("==", v, ("c", c)), st) is True:
                        return None
                import balance
                if balance.exhaustive(self.prog, f, kind[1]):
                    return None
                if not self.c.relevant(("nz", v)):
                    return st
                st = st.copy()
                for c in kind[1]:
                    k = self.rel("==", v, ("c", c))
                    st.facts[k[0]] = not k[1]
        return st

    def step(self, f, e, st):
        self.steps += 1
        if not isinstance(e, int):
            return [st]
        k = f.kind(e)
        site = (f.name, e)
        if k == "decl":
            st = st.copy()
            for v, i in f.pay(e):
                P = ("v", f.name, f.varname(v), v)
                st.env[P] = self.ev(f, i, st) if i is not None and i >= 0 else UNK
            return [st]
        if k == "asg":
            st = st.copy()
            L, R = f.kids(e)
            P = self.lval(f, L, st)
            if f.pay(e) == "=":
                v = self.ev(f, R, st)
            else:
                v = self.mk(f.pay(e)[:-1], self.ev(f, L, st), self.ev(f, R, st))
            old = self.load(P, st) if P is not None and P[0] != "v" else None
            st = self.c.at_write(self, f, e, P, v, st) or st
            # a term that is built from itself would grow without end in a loop
            if f.pay(e) != "=":
                v = self.c.grown(f, e, P, v, st)
            if P is None:
                t = f.unwrap(L)
                if t >= 0 and f.kind(t) == "mem":
                    self.clobber(st, f.pay(t)[0], site)
                return [st]
            self.store(st, P, v, site)
            return [st]
        if k == "un" and f.pay(e) in ("pre++", "pre--", "post++", "post--"):
            st = st.copy()
            P = self.lval(f, f.kids(e)[0], st)
            st = self.c.at_write(self, f, e, P, UNK, st) or st
            self.store(st, P, UNK, site)
            return [st]
        if k == "ret":
            ks = f.kids(e)
            if ks and ks[0] >= 0:
                st = st.copy()
                st.env["ret"] = self.ev(f, ks[0], st)
            return [st]
        if k == "call":
            return self.call(f, e, st)
        if k == "atomic" and "load" not in str(f.pay(e)):
            st = st.copy()
            for x in f.walk(f.kids(e)[0]):
                if f.kind(x) == "mem":
                    self.clobber(st, f.pay(x)[0], site)
            return [st]
        return [st]

    def call(self, f, e, st):
        nm = f.callee(e)
        if nm in ("__builtin_expect", "__builtin_assume_aligned"):
            return [st]
        if self.prog.call_noreturn(f, e):
            self.c.at_abort(self, f, e, nm, st)
            return []
        args = [self.ev(f, a, st) for a in f.args(e)]
        r = self.c.at_call(self, f, e, nm, args, st)
        if r is not None:
            return r
        g = self.prog.callee(f, e) if nm else None
        if g is not None and g.cfg_raw is not None and g not in self.stack and len(self.stack) < self.DEPTH and self.c.inline(g):
            out = []
            for v, s in self.run(g, args, st, e):
                s.env[("r", e)] = v
                s._key = None
                out.append(s)
            return out
        st = st.copy()
        self.opaque(f, e, nm, g, st)
        if ("r", e) in st.env:
            del st.env[("r", e)]
        if nm is not None and self.c.stable(nm):
            st.env[("r", e)] = ("call", nm) + tuple(args)
        elif f.type(e) and f.type(e).endswith("*") and self.c.fresh_pointers:
            t = ("w", f.name, e)
            self.purge(st, lambda x: x == t)
            st.env[("r", e)] = t
        else:
            st.env[("r", e)] = UNK
        return [st]

    def opaque(self, f, e, nm, g, st):
        site = (f.name, e)
        eff = self.c.effect(nm) if nm else None
        if eff is None:
            if nm is None:
                eff = {"*"}
            elif g is not None and g.file == self.c.file:
                w = self.written(g)
                eff = {"*"} if w is None else w
            else:
                eff = ()
        if "*" in eff:
            self.clobber(st, None, site)
        for x in eff:
            if x != "*":
                self.clobber(st, x, site)


def size(t):
    return 1 if not isinstance(t, tuple) else sum(size(x) for x in t)


class Client:
    file = "src/rt/model.c"
    singletons = {}
    unsigned = ()
    fresh_pointers = False

    def effect(self, nm): return None
    def keeps(self, P): return False
    def tracks(self, fld): return True
    def relevant(self, atom): return True
    def pinned(self, atom): return False
    def inline(self, g): return False
    def stable(self, nm): return False
    def at_call(self, pp, f, e, nm, args, st): return None
    def at_write(self, pp, f, e, P, v, st): return None
    def at_edge(self, pp, f, blk, kind, st): return st
    def at_abort(self, pp, f, e, nm, st): pass
    def grown(self, f, e, P, v, st):
        return v if P is not None and P[0] == "m" and size(v) < 12 and not mentions(v, lambda t: t[0] == "op" and t[1] == v[1] and t is not v) else UNK
