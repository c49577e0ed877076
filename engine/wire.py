"""Wire-format agreement: the words a writer can emit must be words its reader
can consume.

Both functions are turned into automata over I/O primitives (helpers are
inlined, noreturn paths dropped); symbols carry the field the value comes from
or goes to, and a constant when the writer emits one.  The writer's automaton is
simulated against the set of reader states.  Branches on a named field are
shared facts of both sides, branches on a value the reader has just consumed are
resolved when the writer emitted a constant."""
from core import KIND, CONST, PAY, KIDS
from facts import AnalysisError


GENERIC = ("count", "items", "limit")      # names of array plumbing, not of data

RENAMING = ("istr", "ident_new")           # same value, other representation


class Sym:
    __slots__ = ("op", "fields", "const", "site", "txt", "dest", "expr", "delta", "len", "fn", "node", "disc", "ctx", "full", "rlen")

    def __repr__(self):
        return "%s%s%s" % (self.op, "<%s>" % ",".join(sorted(self.fields)) if self.fields else "",
                           "=%d" % self.const if self.const is not None else "")


class Ctx:
    """One inlined instance of a function."""
    n = 0

    def __init__(self, fn, up=None, call=None):
        Ctx.n += 1
        self.id = Ctx.n
        self.fn, self.up, self.call = fn, up, call

    def bind(self, v):
        """(ctx, node) a parameter is bound to, or None."""
        if self.call is None:
            return None
        if v in self.fn.params:
            i = self.fn.params.index(v)
            a = self.up.fn.args(self.call)
            if i < len(a):
                return self.up, a[i]
        return None


def single_def(fn, v):
    c = fn.cache.setdefault("wire_defs", None)
    if c is None:
        c = {}
        for n in fn.walk():
            k = fn.kind(n)
            if k == "decl":
                for var, init in fn.pay(n):
                    c.setdefault(var, []).append(init)
            elif k == "asg":
                x = fn.var_of(fn.kids(n)[0])
                if x is not None:
                    c.setdefault(x, []).append(fn.kids(n)[1] if fn.pay(n) == "=" else -2)
            elif k == "un" and (fn.pay(n).startswith("pre") or fn.pay(n).startswith("post") or fn.pay(n) == "&"):
                x = fn.var_of(fn.kids(n)[0])
                if x is not None:
                    c.setdefault(x, []).append(-2)
        fn.cache["wire_defs"] = c
    d = [x for x in c.get(v, []) if x != -1]
    if len(d) == 1 and d[0] >= 0 and v not in fn.params:
        return d[0]
    return None


class Builder:
    def __init__(self, prog, prims, pairs, role, maxrec=2, pseudo=None):
        self.prog, self.prims, self.pairs, self.role = prog, prims, pairs, role
        self.maxrec = maxrec
        self.pseudo = pseudo
        self.io = {}

    # -- does a function transitively perform I/O of this role
    def has_io(self, fn):
        if not self.io:
            # reverse call-graph closure from the functions that call a primitive
            key = ("wire_io", self.role, tuple(sorted(self.prims)))
            cache = self.prog.__dict__.setdefault("_wire_io", {})
            if key not in cache:
                work, have = [], set()
                for p in self.prims:
                    work.extend(f for f, n in self.prog.callers(p))
                if self.pseudo:
                    work.extend(f for f in self.prog.fns if any(self.pseudo(f, n) for n in f.walk()))
                while work:
                    f = work.pop()
                    if f in have or f.name in self.prims:
                        continue
                    have.add(f)
                    work.extend(g for g, n in self.prog.callers(f.name) if self.prog.callee(g, n) is f)
                cache[key] = have
            self.io = cache[key]
        return fn in self.io

    # -- labels
    def fields(self, ctx, n, depth=0):
        """Names of the struct field an expression reads."""
        fn = ctx.fn
        n = fn.unwrap(n)
        if n < 0 or depth > 6:
            return frozenset()
        k = fn.kind(n)
        if k == "mem":
            if fn.pay(n)[0] and fn.pay(n)[0] not in GENERIC:
                return frozenset([fn.pay(n)[0]])
            return frozenset()
        if k == "var":
            v = fn.pay(n)
            b = ctx.bind(v)
            if b:
                return self.fields(b[0], b[1], depth + 1)
            d = single_def(fn, v)
            if d is not None:
                return self.fields(ctx, d, depth + 1)
            return frozenset()
        if k == "un" and fn.pay(n) in ("-", "&"):
            return self.fields(ctx, fn.kids(n)[0], depth + 1)
        if k == "bin" and fn.pay(n) == "-":
            return self.fields(ctx, fn.kids(n)[0], depth + 1)
        if k == "idx":
            return self.fields(ctx, fn.kids(n)[0], depth + 1)
        if k == "call" and fn.callee(n) in RENAMING and fn.args(n):
            return self.fields(ctx, fn.args(n)[0], depth + 1)
        return frozenset()

    def const(self, ctx, n, depth=0):
        fn = ctx.fn
        if n < 0 or depth > 4:
            return None
        if fn.const(n) is not None:
            return fn.const(n)
        n = fn.unwrap(n)
        if n >= 0 and fn.const(n) is not None:
            return fn.const(n)
        v = fn.var_of(n)
        if v is not None:
            b = ctx.bind(v)
            if b:
                return self.const(b[0], b[1], depth + 1)
        return None

    def dest(self, ctx, n):
        """(destination var of the innermost context or None, fields, delta?, discarded?)"""
        fn = ctx.fn
        x, par = n, fn.parent(n)
        while par >= 0:
            k = fn.kind(par)
            if k == "cast" or (k == "bin" and fn.pay(par) not in ("==", "!=", "<", ">", "<=", ">=", "&&", "||", ",")) \
               or (k == "call" and (fn.callee(par) == "__builtin_expect" or fn.callee(par) in RENAMING)):
                x, par = par, fn.parent(par)
                continue
            break
        if par < 0:
            return None, frozenset(), False, True
        k = fn.kind(par)
        if k == "asg":
            lhs = fn.kids(par)[0]
            delta = fn.pay(par) != "=" or self.self_add(fn, par)
            v = fn.var_of(lhs)
            fs = self.fields_lv(fn, lhs)
            up = fn.parent(par)
            if v is not None:
                fs = fs | self.var_sinks(ctx, v)
                return v, fs, delta or self.var_delta(ctx, v), False
            # a chained or nested assignment keeps the outermost names too
            while up >= 0 and fn.kind(up) in ("cast",):
                up = fn.parent(up)
            return None, fs, delta, False
        if k == "decl":
            for var, init in fn.pay(par):
                if init == x or fn.skip_casts(init) == fn.skip_casts(x):
                    return var, self.var_sinks(ctx, var), self.var_delta(ctx, var), False
            return None, frozenset(), False, False
        if k == "init":
            names = fn.pay(par) or []
            ks = fn.kids(par)
            for i, kk in enumerate(ks):
                if kk == x and i < len(names) and names[i]:
                    return None, frozenset([names[i]]), False, False
            return None, frozenset(), False, False
        if k == "ret":
            if ctx.call is not None:
                return self.dest(ctx.up, ctx.call)
            return None, frozenset(), False, False
        if k in ("block", "stmt") or fn.kind(par) in ("if", "while", "for", "do", "case", "default", "label"):
            disc = k == "block"
            return None, frozenset(), False, disc
        return None, frozenset(), False, False

    @staticmethod
    def self_add(fn, a):
        """x.f = x.f + e"""
        lhs, rhs = fn.kids(a)
        rhs = fn.unwrap(rhs)
        p = fn.path(lhs)
        return p is not None and rhs >= 0 and fn.kind(rhs) == "bin" and fn.pay(rhs) in ("+", "-") \
            and p in (fn.path(fn.kids(rhs)[0]), fn.path(fn.kids(rhs)[1]))

    def var_delta(self, ctx, v):
        """Is a local accumulated onto a field?"""
        fn = ctx.fn
        for n in fn.walk():
            if fn.kind(n) == "asg" and (fn.pay(n) in ("+=", "-=") or self.self_add(fn, n)):
                if any(fn.kind(x) == "var" and fn.pay(x) == v for x in fn.walk(fn.kids(n)[1])):
                    return True
        return False

    def fields_lv(self, fn, n):
        n = fn.unwrap(n)
        if n < 0:
            return frozenset()
        k = fn.kind(n)
        if k == "mem" and fn.pay(n)[0]:
            return frozenset([fn.pay(n)[0]])
        if k == "idx":
            return self.fields_lv(fn, fn.kids(n)[0])
        if k == "un" and fn.pay(n) in ("*", "&"):
            return self.fields_lv(fn, fn.kids(n)[0])
        return frozenset()

    def var_sinks(self, ctx, v):
        """Fields a local is stored to or compared with."""
        fn = ctx.fn
        key = ("sinks", v)
        if key in fn.cache:
            return fn.cache[key]
        out = set()
        for n in fn.walk():
            k = fn.kind(n)
            if k == "asg":
                r = fn.unwrap(fn.kids(n)[1])
                if fn.var_of(r) == v or r >= 0 and fn.kind(r) == "bin" and fn.pay(r) in ("+", "-") and \
                   v in (fn.var_of(fn.kids(r)[0]), fn.var_of(fn.kids(r)[1])) and self.self_add(fn, n):
                    out |= self.fields_lv(fn, fn.kids(n)[0])
            elif k == "bin" and fn.pay(n) in ("==", "!="):
                a, b = fn.kids(n)
                for x, y in ((a, b), (b, a)):
                    if fn.var_of(x) == v:
                        y = fn.unwrap(y)
                        if y >= 0 and fn.kind(y) == "mem" and fn.const(y) is None:
                            out |= self.fields_lv(fn, y)
        fn.cache[key] = frozenset(out)
        return fn.cache[key]

    # -- guards: (subject, op, const) with truth, or None
    def pred(self, ctx, cond):
        fn = ctx.fn
        pol = True
        n = cond
        while True:
            n = fn.unwrap(n)
            if n < 0:
                return None
            if fn.kind(n) == "un" and fn.pay(n) == "!":
                pol = not pol
                n = fn.kids(n)[0]
                continue
            if fn.kind(n) == "asg" and fn.pay(n) == "=":
                n = fn.kids(n)[0]
                continue
            break
        k = fn.kind(n)
        if k == "bin" and fn.pay(n) in ("==", "!=", "<", ">", "<=", ">="):
            op = fn.pay(n)
            a, b = fn.kids(n)
            ca, cb = self.const(ctx, a), self.const(ctx, b)
            if ca is not None and cb is None:
                a, b, ca, cb = b, a, cb, ca
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if cb is not None and ca is None:
                s = self.subject(ctx, a)
                if s is None:
                    return None
                if op in ("==", "!="):
                    if s[0] == "ptr":
                        return None
                    if op == "!=":
                        pol = not pol
                    if cb == 0 and s[0] == "f":
                        return (s, ">", 0), not pol
                    return (s, "==", cb), pol
                if op in (">=", "<") :
                    if op == "<":
                        pol = not pol
                    return (s, ">", cb - 1), pol
                if op == "<=":
                    pol = not pol
                return (s, ">", cb), pol
            if ca is None and cb is None and op in ("<", ">"):
                # loop test  i < X.field : entering needs a positive bound
                if op == ">":
                    a, b = b, a
                if fn.var_of(a) is not None:
                    s = self.subject(ctx, b)
                    if s is not None and s[0] == "f":
                        return (s, ">", 0), ("enter", pol)
            return None
        if k == "bin" and fn.pay(n) == "&":
            a, b = fn.kids(n)
            ca, cb = self.const(ctx, a), self.const(ctx, b)
            if ca is not None and cb is None:
                a, ca, cb = b, cb, ca
            if cb is not None:
                s = self.subject(ctx, a)
                if s is not None and s[0] == "f":
                    return (s, "&", cb), pol
                v = fn.var_of(a)
                if v is not None:
                    return (("bit", None), "&", cb), pol
            return None
        s = self.subject(ctx, n)
        if s is None or s[0] == "ptr":
            return None
        return (s, ">", 0), pol

    def subject(self, ctx, n):
        fn = ctx.fn
        n = fn.unwrap(n)
        if n < 0:
            return None
        if fn.kind(n) == "asg" and fn.pay(n) == "=":
            n = fn.unwrap(fn.kids(n)[0])
        t = fn.type(n)
        if t and t.rstrip().endswith("*"):
            return ("ptr",)
        k = fn.kind(n)
        if k == "mem":
            f = fn.pay(n)[0]
            return ("f", f) if f and f not in GENERIC else None
        if k == "var":
            v = fn.pay(n)
            b = ctx.bind(v)
            if b:
                return self.subject(b[0], b[1])
            d = single_def(fn, v)
            if d is not None and fn.kind(fn.unwrap(d)) == "mem":
                return self.subject(ctx, d)
            return ("v", ctx.id, v)
        if k == "call":
            return None
        return None

    # -- automaton
    def build(self, fn):
        self.edges = {}
        self.nn = 0
        ctx = Ctx(fn)
        s, e = self.inline(ctx, [fn.name])
        a = Auto(self.edges, s, e)
        a.simplify()
        a.fn = fn
        return a

    def node(self):
        self.nn += 1
        self.edges[self.nn] = []
        return self.nn

    def inline(self, ctx, stack):
        fn = ctx.fn
        cfg = fn.cfg
        ent = {b: self.node() for b in cfg.blocks if b in cfg.reach}
        end = self.node()
        for b in ent:
            blk = cfg.blocks[b]
            cur = ent[b]
            dead = False
            for el in blk.elems:
                if not isinstance(el, int):
                    continue
                k = fn.kind(el)
                if k == "call":
                    cur = self.call(ctx, el, cur, stack)
                    if cur is None:
                        dead = True
                        break
                elif k == "un" and self.pseudo and self.pseudo(fn, el):
                    nx = self.node()
                    self.edges[cur].append(("sym", self.symbol(ctx, el, self.pseudo(fn, el), None), nx))
                    cur = nx
                elif k == "asg":
                    fs = self.fields_lv(fn, fn.kids(el)[0])
                    v = fn.var_of(fn.kids(el)[0])
                    rhs = fn.unwrap(fn.kids(el)[1])
                    isread = rhs >= 0 and (fn.kind(rhs) == "call" or self.pseudo and any(self.pseudo(fn, x) for x in fn.walk(rhs)))
                    if not isread:
                        nx = self.node()
                        self.edges[cur].append(("kill", (fs, ("v", ctx.id, v) if v is not None else None,
                                                         self.const(ctx, fn.kids(el)[1]) if fn.pay(el) == "=" else None), nx))
                        cur = nx
            if dead or blk.noret:
                continue
            if b == cfg.exit:
                self.edges[cur].append(("eps", None, end))
                continue
            for s, kind in cfg.edges(b):
                if s not in ent:
                    continue
                if kind in (True, False):
                    p = self.pred(ctx, blk.cond)
                    if p is None:
                        self.edges[cur].append(("eps", None, ent[s]))
                    elif p[0][0][0] == "bit":
                        # entering the branch of one attribute class: both sides
                        # must enter the same ones in the same order
                        if p[1] == kind:
                            m = self.symbol(ctx, blk.cond, "class:%x" % p[0][2], None)
                            m.fields, m.dest, m.disc = frozenset(), None, False
                            self.edges[cur].append(("sym", m, ent[s]))
                        else:
                            self.edges[cur].append(("eps", None, ent[s]))
                    elif isinstance(p[1], tuple):
                        if kind == p[1][1]:
                            self.edges[cur].append(("need", (p[0], True), ent[s]))
                        else:
                            self.edges[cur].append(("eps", None, ent[s]))
                    else:
                        self.edges[cur].append(("guard", (p[0], p[1] == kind), ent[s]))
                elif isinstance(kind, tuple):
                    subj = self.subject(ctx, blk.cond) if blk.cond is not None else None
                    if subj is None or subj[0] == "ptr":
                        self.edges[cur].append(("eps", None, ent[s]))
                    elif kind[0] == "case":
                        for c in kind[1]:
                            self.edges[cur].append(("guard", ((subj, "==", c), True), ent[s]))
                    else:
                        cc = cur
                        for c in kind[1]:
                            nx = self.node()
                            self.edges[cc].append(("guard", ((subj, "==", c), False), nx))
                            cc = nx
                        self.edges[cc].append(("eps", None, ent[s]))
                else:
                    self.edges[cur].append(("eps", None, ent[s]))
        return ent[cfg.entry], end

    def symbol(self, ctx, n, op, valarg):
        fn = ctx.fn
        s = Sym()
        s.op, s.fn, s.node, s.ctx = op, fn, n, ctx
        s.site = fn.loc(n)
        s.txt = fn.txt(n)[:80]
        s.const = None
        s.fields = frozenset()
        s.dest = None
        s.delta = False
        s.expr = None
        s.disc = False
        s.len = None
        if self.role == "w":
            if valarg is not None:
                a = fn.args(n)
                if valarg < len(a):
                    s.expr = a[valarg]
                    s.fields = self.fields(ctx, a[valarg])
                    s.const = self.const(ctx, a[valarg])
                    x = fn.unwrap(a[valarg])
                    s.delta = s.const is None and self.is_delta(ctx, x)
        else:
            if isinstance(valarg, int) and valarg >= 0:     # destination is an argument
                a = fn.args(n)
                if valarg < len(a):
                    s.fields = self.dest_arg(ctx, a[valarg])
            else:
                v, fs, delta, disc = self.dest(ctx, n)
                s.fields, s.delta, s.disc = fs, delta, disc
                if v is not None:
                    s.dest = ("v", ctx.id, v)
        return s

    def dest_arg(self, ctx, n):
        fn = ctx.fn
        x = fn.unwrap(n)
        if x >= 0 and fn.kind(x) == "un" and fn.pay(x) == "&":
            x = fn.kids(x)[0]
        v = fn.var_of(x)
        if v is not None:
            b = ctx.bind(v)
            if b:
                return self.dest_arg(b[0], b[1])
            return self.var_sinks(ctx, v)
        return self.fields_lv(fn, x)

    def is_delta(self, ctx, x, depth=0):
        fn = ctx.fn
        x = fn.unwrap(x)
        if x < 0 or depth > 3:
            return False
        if fn.kind(x) == "bin" and fn.pay(x) == "-":
            a, b = fn.kids(x)
            fa, fb = self.fields(ctx, a), self.fields(ctx, b)
            return bool(fa) and bool(fb)
        v = fn.var_of(x)
        if v is not None:
            bnd = ctx.bind(v)
            if bnd:
                return self.is_delta(bnd[0], bnd[1], depth + 1)
            d = single_def(fn, v)
            if d is not None:
                return self.is_delta(ctx, d, depth + 1)
        return False

    def call(self, ctx, n, cur, stack):
        """Returns the node after the call, None when the path ends here."""
        fn = ctx.fn
        name = fn.callee(n)
        if name in self.prims:
            op, val = self.prims[name][:2]
            nx = self.node()
            s = self.symbol(ctx, n, op, val)
            if op == "raw":
                li = self.prims[name][2]
                s.len = (ctx, fn.args(n)[li])
            self.edges[cur].append(("sym", s, nx))
            return nx
        d = self.prog.callee(fn, n)
        if d is None or not d.file.endswith(".c"):
            return cur
        if not self.has_io(d):
            return cur
        if any((d.callee(c) or "").endswith("fbuf_open") for c in d.calls()):
            return cur                      # works on a stream of its own
        rec = stack.count(d.name)
        if rec > self.maxrec:
            return None
        if d.name in self.pairs:
            nx = self.node()
            nt, val = self.pairs[d.name]
            s = self.symbol(ctx, n, nt, val)
            self.edges[cur].append(("nt", s, nx))
            sub = Ctx(d, ctx, n)
            a, b = self.inline(sub, stack + [d.name])
            self.edges[cur].append(("body", s, a))
            self.edges[b].append(("eps", None, nx))
            return nx
        sub = Ctx(d, ctx, n)
        a, b = self.inline(sub, stack + [d.name])
        self.edges[cur].append(("eps", None, a))
        return b


class Auto:
    def __init__(self, edges, start, end):
        self.edges, self.start, self.end = edges, start, end

    def simplify(self):
        """Collapse nodes that lead to one place without any I/O."""
        E = self.edges
        # strongly connected regions without I/O become opaque
        rep = {}
        def find(x):
            while x in rep:
                x = rep[x]
            return x
        changed = True
        rounds = 0
        while changed and rounds < 200:
            changed = False
            rounds += 1
            for n in list(E):
                if n in rep:
                    continue
                outs = []
                for k, p, d in E[n]:
                    d = find(d)
                    if k in ("eps", "guard", "need") and d == n:
                        changed = True
                        continue
                    if (k, p, d) not in outs:
                        outs.append((k, p, d))
                E[n] = outs
                if n != self.end and outs and all(k in ("eps", "guard") for k, p, d in outs) \
                   and len({d for k, p, d in outs}) == 1 and n != outs[0][2] \
                   and (any(k == "eps" for k, p, d in outs)
                        or any((p[0], not p[1]) in [q for _, q, _ in outs] for k, p, d in outs)):
                    rep[n] = outs[0][2]
                    changed = True
            if not changed:
                # collapse one I/O-free cycle
                scc = self._scc({n: [find(d) for k, p, d in E[n] if k in ("eps", "guard", "need", "kill")]
                                 for n in E if n not in rep})
                for comp in scc:
                    if len(comp) < 2:
                        continue
                    comp = set(comp)
                    r = min(comp)
                    new = []
                    for x in comp:
                        for k, p, d in E[x]:
                            d = find(d)
                            if d in comp and k in ("eps", "guard", "need", "kill"):
                                continue
                            if k == "guard":
                                k, p = "eps", None
                            new.append((k, p, d))
                    for x in comp:
                        if x != r:
                            rep[x] = r
                    if self.end in comp:
                        self.end = r
                    E[r] = new
                    changed = True
        self.start = find(self.start)
        self.end = find(self.end)
        for n in list(E):
            if n in rep:
                del E[n]
            else:
                E[n] = [(k, p, find(d)) for k, p, d in E[n]]

    @staticmethod
    def _scc(g):
        idx, low, st, on, out = {}, {}, [], set(), []
        c = [0]
        for root in g:
            if root in idx:
                continue
            work = [(root, iter(g[root]))]
            idx[root] = low[root] = c[0]; c[0] += 1
            st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in g:
                        continue
                    if w not in idx:
                        idx[w] = low[w] = c[0]; c[0] += 1
                        st.append(w); on.add(w)
                        work.append((w, iter(g[w])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
        return out


def liveness(auto, reader=False):
    """Subjects each node may still test before they are transferred again."""
    E = auto.edges
    preds = {n: [] for n in E}
    for n, es in E.items():
        for k, p, d in es:
            preds[d].append(n)
    live = {n: frozenset() for n in E}
    work = list(E)
    while work:
        n = work.pop()
        out = set()
        for k, p, d in E[n]:
            l = live[d]
            if k in ("guard", "need"):
                out.add(p[0][0])
                out |= l
            elif k in ("sym", "nt"):
                out |= l - ({p.dest} | {("f", f) for f in p.fields} | {("bit", None)})
            elif k == "kill":
                out |= l - ((set() if reader else {("f", f) for f in p[0]}) | {p[1]})
            else:
                out |= l
        out = frozenset(out)
        if out != live[n]:
            live[n] = out
            work.extend(preds[n])
    return live


# ------------------------------------------------------------- comparison

def contradicts(facts, p, pol):
    """True if `facts` (dict pred->bool) rule out p == pol; None/False otherwise."""
    if p in facts:
        return facts[p] != pol
    subj, op, c = p
    for (s, o, k), v in facts.items():
        if s != subj:
            continue
        if subj[0] == "bit":
            if pol and v:
                return True           # single-bit masks are exclusive
            continue
        if o == "==" and v:
            t = {"==": k == c, ">": k > c, "&": bool(k & c)}[op]
            if t != pol:
                return True
        if op == "==" and pol:
            t = {"==": k == c, ">": c > k, "&": bool(c & k)}[o]
            if t != v:
                return True
        if o == ">" and op == ">":
            if v and not pol and c <= k:
                return True
            if not v and pol and c >= k:
                return True
    return False


def decided(facts, p):
    t, f = contradicts(facts, p, True), contradicts(facts, p, False)
    if f and not t:
        return True
    if t and not f:
        return False
    return None


def kill(facts, subjs):
    if not any(s in subjs for (s, o, c) in facts):
        return facts
    return {k: v for k, v in facts.items() if k[0] not in subjs}


class Compare:
    def __init__(self, W, R, match, limit=60000):
        self.W, self.R, self.match, self.limit = W, R, match, limit
        self.matched = set()       # (writer site, reader site, op)
        self.pairs = []            # (writer Sym, reader Sym)
        self.viol = []

    def run(self):
        viol = self.explore(False)
        if viol and not self.fatal:
            # a nonterminal one side spells out: allow its parts on both sides
            narrow = viol
            try:
                viol = self.explore(True)
            except AnalysisError:
                viol = narrow
        return viol

    def explore(self, wide):
        self.wide = wide
        self.fatal = False
        self.viol = []
        self.matched = set()
        self.pairs = []
        self.seen = set()
        self.work = []
        # fields the writer itself branches on or emits: branches of the reader
        # on any other field are its own state
        self.shared = set()
        for es in self.W.edges.values():
            for k, p, d in es:
                if k in ("guard", "need"):
                    self.shared.add(p[0][0])
                elif k in ("sym", "nt"):
                    self.shared |= {("f", f) for f in p.fields}
        self.wlive, self.rlive = liveness(self.W), liveness(self.R, True)
        self.push(self.W.start, frozenset([(self.R.start, ())]), {})
        while self.work:
            if len(self.seen) > self.limit:
                raise AnalysisError("wire comparison of %s exceeds its bound" % self.W.fn.name)
            self.step(*self.work.pop())
            if len(self.viol) > 6:
                break
        return self.viol

    def push(self, w, rs, facts):
        rs = frozenset((r, tuple(x for x in env if x[0] in self.rlive[r])) for r, env in rs)
        if facts:
            live = set(self.wlive[w])
            for r, env in rs:
                live |= self.rlive[r]
            facts = {k: v for k, v in facts.items() if k[0] in live}
        k = (w, rs, frozenset(facts.items()))
        if k not in self.seen:
            self.seen.add(k)
            self.work.append((w, rs, facts))

    # reader closure under facts; raises Fork when a shared predicate is open
    def closure(self, rs, facts):
        out = {}
        st = list(rs)
        seen = set()
        fork = None
        while st:
            r, env = st.pop()
            if (r, env) in seen:
                continue
            seen.add((r, env))
            keep = r == self.R.end
            for k, p, d in self.R.edges[r]:
                if k in ("sym", "nt"):
                    keep = True
                elif k == "body":
                    if self.wide:
                        st.append((d, env))
                elif k == "eps":
                    st.append((d, env))
                elif k == "kill":
                    fs, v, c = p
                    e2 = env
                    if v is not None:
                        e2 = tuple(x for x in env if x[0] != v)
                        if c is not None:
                            e2 = tuple(sorted(e2 + ((v, c),)))
                    st.append((d, e2))
                elif k == "need":
                    if not contradicts(facts, *p):
                        st.append((d, env))
                elif k == "guard":
                    (subj, op, c), pol = p
                    if subj[0] == "v":
                        val = dict(env).get(subj)
                        if val is None:
                            st.append((d, env))
                        else:
                            t = {"==": val == c, ">": val > c, "&": bool(val & c)}[op]
                            if t == pol:
                                st.append((d, env))
                    else:
                        dv = decided(facts, p[0])
                        if dv is None and subj not in self.shared:
                            st.append((d, env))
                        elif dv is None:
                            fork = p[0]
                        elif dv == pol:
                            st.append((d, env))
            if keep:
                out[(r, env)] = 1
        return out, fork

    def step(self, w, rs, facts):
        cl, fork = self.closure(rs, facts)
        if fork is not None:
            for v in (True, False):
                if not contradicts(facts, fork, v):
                    f2 = dict(facts)
                    f2[fork] = v
                    self.push(w, rs, f2)
            return
        if w == self.W.end:
            if not any(r == self.R.end for r, e in cl):
                self.viol.append(("end", None, sorted({s for s in self.expected(cl)})))
            if not self.W.edges[w]:
                return
        edges = self.W.edges[w]
        for k, p, d in edges:
            if k == "eps":
                self.push(d, rs, facts)
            elif k == "kill":
                fs, v, c = p
                self.push(d, rs, kill(facts, {("f", f) for f in fs} | ({v} if v else set())))
            elif k in ("guard", "need"):
                q, pol = p
                if contradicts(facts, q, pol):
                    continue
                if decided(facts, q) is None:
                    f2 = dict(facts)
                    f2[q] = pol
                    self.push(d, rs, f2)
                else:
                    self.push(d, rs, facts)
            elif k in ("sym", "nt"):
                nxt, killed, why = self.consume(cl, p)
                if nxt:
                    subj = {("f", f) for f in p.fields} | {("f", f) for f in killed} | {("bit", None)}
                    f2 = kill(facts, subj)
                    if p.const is not None:
                        f2 = dict(f2)
                        for f in killed | p.fields:
                            f2[(("f", f), "==", p.const)] = True
                    self.push(d, frozenset(nxt), f2)
                else:
                    body = [e for e in edges if e[0] == "body" and e[1] is p]
                    same = any(p2.op == p.op for r, env in cl for k2, p2, d2 in self.R.edges[r] if k2 == "nt")
                    if same:
                        self.fatal = True       # same part, wrong field
                    if k == "nt" and body and not same:
                        self.push(body[0][2], rs, facts)
                    else:
                        self.viol.append(("sym", p, why))

    def expected(self, cl):
        out = set()
        for r, env in cl:
            for k, p, d in self.R.edges[r]:
                if k in ("sym", "nt"):
                    out.add("%s at %s" % (p, p.site))
        return out

    def consume(self, cl, sym):
        nxt = set()
        killed = set()
        why = []
        for r, env in cl:
            for k, p, d in self.R.edges[r]:
                if k not in ("sym", "nt"):
                    continue
                bad = self.match(sym, p)
                if bad:
                    why.append("%s (%s)" % (p, bad) + " at " + p.site)
                    continue
                self.matched.add((sym.site, p.site, sym.op))
                self.pairs.append((sym, p))
                e2 = env
                if p.dest is not None:
                    e2 = tuple(x for x in env if x[0] != p.dest)
                    if sym.const is not None:
                        e2 = tuple(sorted(e2 + ((p.dest, sym.const),)))
                killed |= p.fields
                nxt.add((d, e2))
        return nxt, killed, sorted(set(why))
