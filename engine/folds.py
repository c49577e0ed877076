"""Path-wise value terms of builder functions.

Every acyclic path through a builder is turned into a list of facts (branch
conditions, as terms over the operands) and the term of the value it returns, or
the operation it leaves in an instruction.  Terms are compared by algebra:
polynomial normal form, the order implied by the facts, and truth tables for
single-bit operators.  No path is executed and no solver is used.
"""
import core
from facts import AnalysisError

PURE_CAST = ("cast", "paren")
MAXPATHS = 20000


def N(x):
    return ("n", x)


def is_n(t):
    return t[0] == "n"


class State:
    __slots__ = ("env", "mem", "facts", "events", "ops", "seen")

    def __init__(self):
        self.env, self.mem, self.facts, self.events, self.ops, self.seen = {}, {}, (), (), {}, frozenset()

    def copy(self):
        s = State()
        s.env, s.mem, s.facts, s.events = dict(self.env), dict(self.mem), self.facts, self.events
        s.ops, s.seen = dict(self.ops), self.seen
        return s


class Paths:
    """hooks: name -> function(paths, state, argterms, node, fn) -> term or None"""

    def __init__(self, prog, hooks=None, noinline=(), inline=None):
        self.prog, self.hooks, self.noinline = prog, hooks or {}, set(noinline)
        self.inline = inline or (lambda name: True)
        self.npaths = 0
        self.skips = {}

    def skip(self, fn):
        """blocks that only decide an assertion -> the block where all its surviving paths meet"""
        if fn in self.skips:
            return self.skips[fn]
        g = fn.cfg
        live = {b: [s for s, _ in g.edges(b) if not g.blocks[s].noret] for b in g.blocks
                if not g.blocks[b].noret}
        order = [b for b in g.rpo() if b in live]
        pd = {b: None for b in order}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                ss = [s for s in live[b] if s in pd]
                if not ss:
                    new = {b}
                else:
                    sets = [pd[s] for s in ss if pd[s] is not None]
                    if not sets:
                        continue
                    new = set.intersection(*sets) | {b}
                if new != pd[b]:
                    pd[b] = new
                    changed = True
        out = {}
        for b in order:
            if g.blocks[b].cond is None or pd[b] is None:
                continue
            cand = pd[b] - {b}
            # the nearest post-dominator is the one with the most post-dominators
            p = max(cand, key=lambda x: len(pd[x] or ()), default=None)
            if p is None:
                continue
            region, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x == p or x in region:
                    continue
                region.add(x)
                todo.extend(s for s, _ in g.edges(x))
            if not any(g.blocks[x].noret for x in region) or len(region) > 40:
                continue
            ok = True
            for x in region:
                if x == b or g.blocks[x].noret:
                    continue
                for e in g.blocks[x].elems:
                    if isinstance(e, int) and fn.kind(e) in ("asg", "decl", "ret"):
                        ok = False
            if ok:
                out[b] = p
        self.skips[fn] = out
        return out

    # -- terms ---------------------------------------------------------
    def ev(self, fn, n, st, depth):
        if n is None or n < 0:
            return N(0)
        k = fn.kind(n)
        if k in PURE_CAST:
            return self.ev(fn, fn.kids(n)[0], st, depth)
        if k == "enum":
            return ("n", fn.const(n), fn.pay(n))
        if k == "var":
            v = fn.pay(n)
            key = (depth, v)
            if key in st.env:
                return st.env[key]
            return ("var", fn.name, fn.varname(v))
        if k == "gvar":
            return ("gvar", fn.txt(n))
        if k == "fn":
            return ("fn", fn.pay(n))
        if k == "mem":
            return self.load(self.place(fn, n, st, depth), st)
        if k == "idx":
            return self.load(self.place(fn, n, st, depth), st)
        c = fn.const(n)
        if c is not None and k not in ("call", "flt"):
            return N(c)
        if k == "flt":
            try:
                v = float(c if c is not None else fn.txt(n))
                return N(int(v) if v == int(v) else v)
            except (ValueError, OverflowError):
                return N(fn.txt(n))
        if k == "un":
            op, x = fn.pay(n), fn.kids(n)[0]
            if op == "*":
                return self.load(("deref", self.ev(fn, x, st, depth)), st)
            if op == "&":
                return ("addr", self.place(fn, x, st, depth))
            if op in ("pre++", "pre--", "post++", "post--", "++", "--"):
                old = self.ev(fn, x, st, depth)
                new = self.mk("+" if "+" in op else "-", old, N(1))
                self.store(self.place(fn, x, st, depth), new, st)
                return new if op.startswith("pre") else old
            v = self.ev(fn, x, st, depth)
            if op == "!":
                return self.neg(v)
            if op == "-":
                return self.mk("-", N(0), v)
            if op == "+":
                return v
            return ("u" + op, v)
        if k == "bin":
            a, b = fn.kids(n)
            op = fn.pay(n)
            if op == ",":
                self.ev(fn, a, st, depth)
                return self.ev(fn, b, st, depth)
            return self.mk(op, self.ev(fn, a, st, depth), self.ev(fn, b, st, depth))
        if k in ("cond", "elvis"):
            ks = fn.kids(n)
            if k == "elvis":
                c, a, b = ks[0], ks[0], ks[-1]
            else:
                c, a, b = ks
            t = self.ev(fn, c, st, depth)
            v = self.decide(t, st)
            if v is None:
                return ("?", t, self.ev(fn, a, st, depth), self.ev(fn, b, st, depth))
            return self.ev(fn, a if v else b, st, depth)
        if k == "asg":
            a, b = fn.kids(n)
            op = fn.pay(n)
            v = self.ev(fn, b, st, depth)
            if op != "=":
                v = self.mk(op[:-1], self.ev(fn, a, st, depth), v)
            self.store(self.place(fn, a, st, depth), v, st)
            return v
        if k == "call":
            return st.env.get((depth, "call", n)) or self.call(fn, n, st, depth)
        if k == "stmtexpr":
            return self.last(fn, n, st, depth)
        if k in ("complit", "init"):
            return self.aggregate(fn, n, st, depth)
        return ("opaque", fn.name, fn.txt(n))

    def last(self, fn, n, st, depth):
        ks = fn.kids(n)
        body = fn.kids(ks[0]) if len(ks) == 1 and fn.kind(ks[0]) in ("block", "compound") else ks
        return self.ev(fn, body[-1], st, depth) if body else N(0)

    def aggregate(self, fn, n, st, depth):
        if fn.kind(n) == "complit":
            return self.aggregate(fn, fn.kids(n)[0], st, depth)
        names = fn.pay(n) or []
        out = []
        for i, kid in enumerate(fn.kids(n)):
            nm = names[i] if i < len(names) else str(i)
            if fn.kind(kid) == "init":
                sub = self.aggregate(fn, kid, st, depth)
                if nm == "":
                    out.extend(sub[1])
                    continue
                out.append((nm, sub))
            else:
                out.append((nm, self.ev(fn, kid, st, depth)))
        return ("agg", tuple(out))

    @staticmethod
    def neg(v):
        if is_n(v):
            return N(0 if v[1] else 1)
        if v[0] == "!":
            return v[1] if v[1][0] in ("!", "cmp") else ("!", v)
        return ("!", v)

    def mk(self, op, a, b):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if is_n(a) and is_n(b) and not isinstance(a[1], str) and not isinstance(b[1], str):
                return N(int({"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], ">": a[1] > b[1],
                              "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]))
            if a == b:
                return N(int(op in ("==", "<=", ">=")))
            return ("cmp", op, a, b)
        if op in ("+", "-", "*") and is_n(a) and is_n(b) and not isinstance(a[1], str) and not isinstance(b[1], str):
            return N({"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[op])
        return (op, a, b)

    def place(self, fn, n, st, depth):
        k = fn.kind(n)
        if k in PURE_CAST:
            return self.place(fn, fn.kids(n)[0], st, depth)
        if k == "var":
            return ("local", depth, fn.pay(n))
        if k == "mem":
            f, rec, arrow = (list(fn.pay(n)) + [None, None])[:3]
            base = fn.kids(n)[0]
            if arrow:
                return self.field(("deref", self.ev(fn, base, st, depth)), f)
            return self.field(self.place(fn, base, st, depth), f)
        if k == "un" and fn.pay(n) == "*":
            return self.deref(self.ev(fn, fn.kids(n)[0], st, depth))
        if k == "idx":
            a, i = fn.kids(n)
            return ("elem", self.ev(fn, a, st, depth), self.ev(fn, i, st, depth))
        return ("val", self.ev(fn, n, st, depth))

    @staticmethod
    def deref(v):
        return v[1] if v[0] == "addr" else ("deref", v)

    @staticmethod
    def field(base, f):
        if base[0] == "deref" and base[1][0] == "addr":
            base = base[1][1]
        return base if not f else ("field", base, f)

    def load(self, pl, st):
        if pl[0] == "deref" and pl[1][0] == "addr":
            pl = pl[1][1]
        if pl[0] == "local":
            return st.env.get((pl[1], pl[2]), ("uninit", pl[1], pl[2]))
        if pl in st.mem:
            return st.mem[pl]
        if pl[0] == "field":
            base = self.load(pl[1], st) if pl[1][0] in ("local", "field", "deref", "elem") else None
            if base is not None and base[0] == "agg":
                for nm, v in base[1]:
                    if nm == pl[2]:
                        return v
            if base is not None and base[0] not in ("uninit", "load"):
                return ("fld", base, pl[2])
        if pl[0] == "val":
            return pl[1]
        return ("load", pl)

    def store(self, pl, v, st):
        if pl[0] == "deref" and pl[1][0] == "addr":
            pl = pl[1][1]
        if pl[0] == "local":
            st.env[(pl[1], pl[2])] = v
        else:
            st.mem[pl] = v
            st.events += (("store", pl, v),)

    # -- truth of a term under the facts of the path --------------------
    def decide(self, t, st):
        if is_n(t):
            return bool(t[1]) if not isinstance(t[1], str) else None
        if t[0] == "!":
            v = self.decide(t[1], st)
            return None if v is None else not v
        if t[0] in ("&&", "||"):
            a, b = self.decide(t[1], st), self.decide(t[2], st)
            if t[0] == "&&":
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if t[0] == "^" or t[0] == "opaque":
            pass
        for f, pol in st.facts:
            if f == t:
                return pol
            if t[0] == "cmp" and f[0] == "cmp" and f[2:] == t[2:]:
                r = _cmp_implies(f[1], pol, t[1])
                if r is not None:
                    return r
            if t[0] == "cmp" and t[1] in ("==", "!=") and f[0] == "oneof" and f[1] == t[2] and is_n(t[3]):
                if t[3][1] not in f[2]:
                    return t[1] == "!="
                if len(f[2]) == 1:
                    return t[1] == "=="
            # value known to be one constant
            if t[0] == "cmp" and f[0] == "cmp" and f[1] == "==" and pol and f[2] == t[2] and is_n(f[3]) and is_n(t[3]):
                return bool(self.mk(t[1], f[3], t[3])[1])
        return None

    def assume(self, t, val, st):
        """add t == val to the facts; False if contradictory"""
        v = self.decide(t, st)
        if v is not None:
            return v == val
        if t[0] == "!":
            return self.assume(t[1], not val, st)
        if t[0] == "&&" and val or t[0] == "||" and not val:
            return self.assume(t[1], val, st) and self.assume(t[2], val, st)
        st.facts += ((t, val),)
        return True

    # -- calls ------------------------------------------------------------
    def call(self, fn, n, st, depth):
        name = fn.callee(n)
        args = [self.ev(fn, a, st, depth) for a in fn.args(n)]
        h = self.hooks.get(name)
        if h is None and name and name.startswith("__builtin_") and name.endswith("_overflow"):
            o = {"add": "+", "sub": "-", "mul": "*"}[name.split("_")[3]]
            if args[2][0] == "addr":
                self.store(args[2][1], self.mk(o, args[0], args[1]), st)
            return ("overflows", o, args[0], args[1])
        if h is not None:
            r = h(self, st, args, n, fn)
            if r is not None:
                return r
        for i, a in enumerate(args):
            if a[0] == "addr" and a[1][0] == "local":
                self.store(a[1], ("out", name, i, tuple(x for x in args if x[0] != "addr")), st)
        t = ("call", name or fn.txt(fn.kids(n)[0]), tuple(x for x in args if x[0] != "addr"))
        if name is not None:
            st.events += (t,)
        return t

    def inlinable(self, fn, n):
        name = fn.callee(n)
        if not name or name in self.hooks or name in self.noinline or not self.inline(name):
            return None
        c = self.prog.callee(fn, n)
        if c is None or not c.static or c.file != fn.file or c is fn:
            return None
        if len(c.cfg.blocks) > 80:
            return None
        return c

    # -- walking ----------------------------------------------------------
    def run(self, fn, binds, st=None, depth=0, stack=()):
        """[(state, value term or None, node of the return)]"""
        st = st or State()
        st = st.copy()
        for i, t in binds.items():
            st.env[(depth, i)] = t
        out = []
        work = [(fn.cfg.entry, st, frozenset())]
        g = fn.cfg
        while work:
            b, s, seen = work.pop()
            if b in seen:
                continue
            if b == g.exit:
                out.append((s, None, None))
                continue
            seen = seen | {b}
            bl = g.blocks[b]
            states = [(s, None)]
            done = False
            for e in bl.elems:
                if not isinstance(e, int):
                    continue
                nxt = []
                for s1, _ in states:
                    nxt.extend(self.elem(fn, e, s1, depth, stack))
                states = []
                for s1, ret in nxt:
                    if ret is not None:
                        out.append((s1, ret[0], ret[1]))
                    else:
                        states.append((s1, None))
                if not states:
                    done = True
                    break
            if done or bl.noret:
                continue
            if len(out) + len(work) > MAXPATHS:
                raise AnalysisError("too many paths in %s" % fn.name)
            es = g.edges(b)
            to = self.skip(fn).get(b)
            if to is not None:
                for s1, _ in states:
                    work.append((to, s1, seen))
                continue
            for s1, _ in states:
                if len(es) == 1 and not isinstance(es[0][1], (bool, tuple)):
                    work.append((es[0][0], s1, seen))
                    continue
                if bl.cond is None:
                    for succ, k in es:
                        work.append((succ, s1.copy(), seen))
                    continue
                t = self.ev(fn, bl.cond, s1, depth)
                for succ, k in es:
                    s2 = s1.copy()
                    if isinstance(k, bool):
                        if self.assume(t, k, s2):
                            work.append((succ, s2, seen))
                    elif isinstance(k, tuple):
                        cs = set(k[1])
                        if is_n(t):
                            if (t[1] in cs) == (k[0] == "case"):
                                work.append((succ, s2, seen))
                            continue
                        prev = [f[0][2] for f in s2.facts if f[0][0] == "oneof" and f[0][1] == t]
                        if k[0] == "case":
                            if prev:
                                cs &= prev[-1]
                            if not cs:
                                continue
                            s2.facts += ((("oneof", t, frozenset(cs)), True),)
                        else:
                            if prev and not prev[-1] - cs:
                                continue
                            s2.facts += ((("noneof", t, frozenset(cs)), True),)
                        work.append((succ, s2, seen))
                    else:
                        work.append((succ, s2, seen))
        self.npaths += len(out)
        return out

    def elem(self, fn, e, st, depth, stack):
        k = fn.kind(e)
        if k == "call":
            c = self.inlinable(fn, e)
            if c is not None and len(stack) < 4 and c.name not in stack:
                args = [self.ev(fn, a, st, depth) for a in fn.args(e)]
                if len(args) == len(c.params):
                    binds = dict(zip(c.params, args))
                    d = ("i", depth, e)
                    res = []
                    for s2, v, _ in self.run(c, binds, st, d, stack + (fn.name,)):
                        s2.env[(depth, "call", e)] = v if v is not None else N(0)
                        res.append((s2, None))
                    return res
            v = self.call(fn, e, st, depth)
            st.env[(depth, "call", e)] = v
            return [(st, None)]
        if k == "decl":
            for v, init in fn.pay(e):
                if init is not None and init >= 0:
                    st.env[(depth, v)] = self.ev(fn, init, st, depth)
                else:
                    st.env[(depth, v)] = ("uninit", depth, v)
            return [(st, None)]
        if k == "asg" or k == "un" and ("++" in fn.pay(e) or "--" in fn.pay(e)):
            # nested uses re-evaluate the expression: only the statement itself
            if not self.nested(fn, e):
                self.ev(fn, e, st, depth)
            return [(st, None)]
        if k == "ret":
            ks = fn.kids(e)
            v = self.ev(fn, ks[0], st, depth) if ks and ks[0] >= 0 else None
            return [(st, (v, e))]
        return [(st, None)]

    def nested(self, fn, e):
        p = fn.parent(e)
        while p is not None and p >= 0 and fn.kind(p) in PURE_CAST:
            p = fn.parent(p)
        return p is not None and p >= 0 and fn.kind(p) in ("asg", "bin", "call", "ret", "idx", "mem", "decl")


def _cmp_implies(fop, pol, top):
    if not pol:
        fop = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[fop]
    table = {
        "==": {"==": True, "!=": False, "<": False, ">": False, "<=": True, ">=": True},
        "!=": {"==": False, "!=": True},
        "<": {"<": True, "<=": True, "==": False, "!=": True, ">": False, ">=": False},
        ">": {">": True, ">=": True, "==": False, "!=": True, "<": False, "<=": False},
        "<=": {"<=": True, ">": False},
        ">=": {">=": True, "<": False},
    }
    return table[fop].get(top)


# -- algebra --------------------------------------------------------------
def poly(t, subst=None):
    """polynomial normal form: {monomial (sorted tuple of atoms): coefficient}"""
    subst = subst or {}
    if t in subst:
        t = subst[t]
    if is_n(t):
        if isinstance(t[1], str):
            return {(t,): 1}
        return {(): t[1]} if t[1] else {}
    if t[0] in ("+", "-", "*"):
        a, b = poly(t[1], subst), poly(t[2], subst)
        if t[0] == "*":
            r = {}
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = tuple(sorted(m1 + m2, key=repr))
                    r[m] = r.get(m, 0) + c1 * c2
        else:
            s = 1 if t[0] == "+" else -1
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + s * c
        return {m: c for m, c in r.items() if c}
    return {(rebuild(t, subst),): 1}


def rebuild(t, subst):
    if t in subst:
        return subst[t]
    if t[0] in ("/", "%", "<<", ">>", "min", "max", "node"):
        return tuple(rebuild(x, subst) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                     tuple(rebuild(y, subst) if isinstance(y, tuple) else y for y in x)
                     if isinstance(x, tuple) else x for x in t)
    return t


def pkey(p):
    return tuple(sorted(((tuple(map(repr, m)), c) for m, c in p.items())))


class Order:
    """transitive closure of the comparisons known on a path"""

    def __init__(self, facts, extra=(), subst=None):
        self.subst = subst or {}
        self.le = {}
        self.ne = set()
        self.nodes = set()
        for t, pol in facts:
            if t[0] == "cmp":
                op, a, b = t[1:]
                if not pol:
                    op = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[op]
                self.add(op, a, b)
        for op, a, b in extra:
            self.add(op, a, b)
        self.closed = False

    def key(self, t):
        p = poly(t, self.subst)
        c = p.get((), 0)
        rest = {m: k for m, k in p.items() if m != ()}
        if len(p) <= 1 and not rest:
            return ("k", c)
        return pkey(p)

    def edge(self, a, b, strict):
        self.nodes.add(a)
        self.nodes.add(b)
        self.le[(a, b)] = self.le.get((a, b), False) or strict

    def add(self, op, a, b):
        a, b = self.key(a), self.key(b)
        if op in ("<", "<="):
            self.edge(a, b, op == "<")
        elif op in (">", ">="):
            self.edge(b, a, op == ">")
        elif op == "==":
            self.edge(a, b, False)
            self.edge(b, a, False)
        elif op == "!=":
            self.ne.add((a, b))
            self.ne.add((b, a))
            self.nodes.update((a, b))

    def close(self):
        ks = [n for n in self.nodes if isinstance(n, tuple) and len(n) == 2 and n[0] == "k"]
        ks.sort(key=lambda n: n[1])
        for x, y in zip(ks, ks[1:]):
            self.edge(x, y, x[1] < y[1])
        ns = list(self.nodes)
        for k in ns:
            for i in ns:
                if (i, k) not in self.le:
                    continue
                for j in ns:
                    if (k, j) in self.le:
                        s = self.le[(i, k)] or self.le[(k, j)]
                        self.le[(i, j)] = self.le.get((i, j), False) or s
        for e in self.ne:
            if e in self.le:
                self.le[e] = True
        self.closed = True

    def prove(self, op, a, b):
        a, b = self.key(a), self.key(b)
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        if a == b:
            return op == "<="
        ka = isinstance(a, tuple) and len(a) == 2 and a[0] == "k"
        kb = isinstance(b, tuple) and len(b) == 2 and b[0] == "k"
        if ka and kb:
            return a[1] < b[1] if op == "<" else a[1] <= b[1]
        new = {x for x in (a, b) if x not in self.nodes}
        if new:
            self.nodes |= new
            self.closed = False
        if not self.closed:
            self.close()
        s = self.le.get((a, b))
        return s is not None and (s or op == "<=")

    def infeasible(self):
        if not self.closed:
            self.close()
        return any(self.le.get((n, n)) for n in self.nodes)
