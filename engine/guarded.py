"""Do values reach the operations that consume them only after their check?"""
import re

import core
from balance import unwrap

CAP = 160


def k_ret(f, n):
    return f.kind(n) == "ret" and f.kids(n) and f.kids(n)[0] >= 0


class Guarded:
    """Disjunctive forward analysis of the values a function handles.

    producers    functions whose result is an unchecked value
    preserve     name -> index: the result is the same value as that argument
    checks       name -> index: the argument is checked by the call
    sinks        name -> index: the argument must have been checked
    facts        predicates whose outcome is remembered per branch
    excused      function(facts) -> True if the value needs no check there
    """

    def __init__(self, prog, fns, producers, preserve, checks, sinks, facts, excused, vtype, skip=(), returns=(), sized=(), keep=()):
        self.prog, self.fns = prog, [f for f in fns if f.cfg_raw is not None]
        self.producers, self.preserve, self.facts, self.excused = producers, preserve, facts, excused
        self.checks, self.sinks = dict(checks), dict(sinks)
        self.vtype = vtype
        self.skip = skip
        self.returns = {f for f in fns if f.name in returns}   # their result must be checked
        self.keep = set(keep)     # further branch outcomes of interest to `excused`
        self.sized = dict(sized)  # sink -> (index of its length, function computing a value's length, index of the value)
        self.met = set()          # (fn, sink) reached by a checked value on some path
        self.sites = {}
        self.sum_sink = {}       # fn -> parameter positions that reach a sink unchecked -> in which cases
        self.sum_check = {}      # fn -> set of parameter positions checked on every normal path
        self.alias, self.deft, self.use, self.livet = {}, {}, {}, {}

    def solve(self):
        names = set(self.checks) | set(self.sinks)
        ctx = None
        for rnd in range(6):
            change = False
            for f in self.fns:
                if f.name in self.checks or f.name in self.skip or \
                        not any(f.callee(c) in names for c in f.calls()):
                    continue
                ps = [i for i, p in enumerate(f.params) if f.vartype(p) in self.vtype]
                if not ps:
                    continue
                bad, chk = self.run(f, set(ps))
                sk = {}
                for e, x, v, cs in bad:
                    for i in ps:
                        if f.params[i] == v:
                            sk[i] = None if cs is None or i in sk and sk[i] is None else \
                                frozenset(cs) | (sk.get(i) or frozenset())
                ck = {i for i in ps if f.params[i] in chk}
                if set(sk) != set(self.sum_sink.get(f, {})):
                    self.livet = {}
                if sk != self.sum_sink.get(f, {}) or ck != self.sum_check.get(f, set()):
                    self.sum_sink[f], self.sum_check[f] = sk, ck
                    if sk or ck:
                        names.add(f.name)
                    change = True
            if not change:
                break

    # status of an expression: None, or (origin var or None, checked?)
    def status(self, f, n, st):
        n = unwrap(f, n)
        if n < 0:
            return None
        k = f.kind(n)
        if k == "var":
            v = f.pay(n)
            if v in st[2]:
                return (st[3].get(v, v), True)
            if v in st[1]:
                return (st[3].get(v, v), False)
            return None
        if k == "call":
            c = f.callee(n)
            if c in self.preserve:
                return self.status(f, f.args(n)[self.preserve[c]], st)
            if c in self.producers:
                return (("p", n), False)
            return None
        if k == "idx":
            # the elements of a local array are followed as one value
            v = f.var_of(f.kids(n)[0])
            if v in st[2]:
                return (st[3].get(v, v), True)
            if v in st[1]:
                return (st[3].get(v, v), False)
            return None
        if k == "asg":
            return self.status(f, f.kids(n)[1], st)
        if k in ("cond",):
            a, b = (self.status(f, x, st) for x in f.kids(n)[1:3])
            if a is None:
                return b
            if b is None:
                return a
            return a if not a[1] else b
        return None

    def held(self, f, y):
        """The variable a register expression is about."""
        y = f.unwrap(y)
        while y >= 0 and f.kind(y) == "call" and f.callee(y) in self.preserve:
            y = f.unwrap(f.args(y)[self.preserve[f.callee(y)]])
        if y >= 0 and f.kind(y) == "idx":
            y = f.kids(y)[0]
        return f.var_of(y) if y >= 0 else None

    def defs(self, f):
        if f not in self.deft:
            out = {}
            for n in f.walk():
                prs = []
                if f.kind(n) == "decl":
                    prs = f.pay(n)
                elif f.kind(n) == "asg":
                    x = f.unwrap(f.kids(n)[0])
                    v = f.var_of(f.kids(x)[0]) if f.kind(x) == "idx" else f.var_of(x)
                    if v is not None:
                        prs = [(v, f.kids(n)[1])]
                for v, i in prs:
                    if i >= 0:
                        out.setdefault(v, []).append((n, f.unwrap(i)))
            self.deft[f] = out
        return self.deft[f]

    def relevant(self, f):
        """Variables whose value can reach a sink of this function."""
        def into(n, out):
            n = unwrap(f, n)
            if n < 0:
                return
            k = f.kind(n)
            if k == "var":
                out.add(f.pay(n))
            elif k == "call":
                c = f.callee(n)
                if c in self.preserve:
                    into(f.args(n)[self.preserve[c]], out)
            elif k == "idx":
                into(f.kids(n)[0], out)
            elif k == "asg":
                into(f.kids(n)[0], out)
                into(f.kids(n)[1], out)
            elif k == "cond":
                for x in f.kids(n)[1:3]:
                    into(x, out)
        rel = set()
        for n in f.walk():
            if f.kind(n) == "call":
                c = f.callee(n)
                g = self.prog.callee(f, n)
                idx = [self.sinks[c]] if c in self.sinks else sorted(self.sum_sink.get(g, ()))
                for x in idx:
                    if x < len(f.args(n)):
                        into(f.args(n)[x], rel)
                for x in [self.checks[c]] if c in self.checks else sorted(self.sum_check.get(g, ())):
                    if x < len(f.args(n)) and self.held(f, f.args(n)[x]) in f.params:
                        into(f.args(n)[x], rel)
            elif k_ret(f, n) and f in self.returns:
                into(f.kids(n)[0], rel)
        work = list(rel)
        while work:
            v = work.pop()
            more = set()
            for n, d in self.defs(f).get(v, ()):
                into(d, more)
            for w in more - rel:
                rel.add(w)
                work.append(w)
        # values derived from those for the sake of a check
        for n in f.walk():
            if f.kind(n) == "call":
                c = f.callee(n)
                g = self.prog.callee(f, n)
                for x in [self.checks[c]] if c in self.checks else sorted(self.sum_check.get(g, ())):
                    if x < len(f.args(n)):
                        v = self.held(f, f.args(n)[x])
                        more = set()
                        for _, d in self.defs(f).get(v, ()):
                            into(d, more)
                        if more & rel:
                            rel.add(v)
        return rel

    def dull(self, f, e):
        """Elements that change nothing."""
        k = f.kind(e)
        if k == "call":
            c = f.callee(e)
            if c in self.sinks or c in self.checks or self.prog.call_noreturn(f, e):
                return False
            g = self.prog.callee(f, e)
            return not self.sum_sink.get(g) and not self.sum_check.get(g)
        return k not in ("decl", "asg", "ret")

    def useful(self, f):
        """The branch outcomes worth remembering: tested more than once, or of interest to `excused`."""
        if f not in self.use:
            seen = {}
            for b in f.cfg.blocks:
                c = f.cfg.blocks[b].cond
                if c is None or c < 0:
                    continue
                for k in {self.fact_key(f, n) for n, _ in core.atoms(f, c, True)} | \
                        {self.fact_key(f, n) for n, _ in core.atoms(f, c, False)}:
                    if k is not None:
                        k = k[0] if isinstance(k[0], tuple) else k
                        seen[k] = seen.get(k, 0) + 1
            moved = {f.varname(f.var_of(f.unwrap(f.kids(n)[0]))) for n in f.walk()
                     if f.kind(n) == "un" and f.pay(n) not in ("!", "*", "-", "~") and f.var_of(f.unwrap(f.kids(n)[0])) is not None}
            stable = lambda k: k[0] not in ("eq", "var") or k[1] not in moved
            self.use[f] = {k for k, n in seen.items()
                           if n > 1 and stable(k) or k[0] in self.facts or k[0] == "flag" or k in self.keep}
        return self.use[f]

    def live(self, f):
        """Per block, the facts a later branch or sink can ask about."""
        if f not in self.livet:
            gen = {}
            names = set(self.sinks) | {g.name for g, s in self.sum_sink.items() if s}
            for b in f.cfg.blocks:
                blk = f.cfg.blocks[b]
                g = set()
                c = blk.cond
                if c is not None and c >= 0:
                    for pol in (True, False):
                        for n, _ in core.atoms(f, c, pol):
                            k = self.fact_key(f, n)
                            if k is not None:
                                g.add(k[0] if isinstance(k[0], tuple) else k)
                    g.add(("case", f.txt(c)))
                if any(not isinstance(e, (list, tuple)) and (
                        f.kind(e) == "call" and f.callee(e) in names or f.kind(e) == "ret") for e in blk.elems):
                    g |= {k for k in self.useful(f) if k[0] in self.facts or k[0] == "flag" or k in self.keep}
                    g.add("sink")
                gen[b] = g
            live = {b: set(g) for b, g in gen.items()}
            change = True
            while change:
                change = False
                for b in f.cfg.blocks:
                    for t, _ in f.cfg.edges(b):
                        if not live[t] <= live[b]:
                            live[b] |= live[t]
                            change = True
            cs = {k for g in gen.values() for k in g if k != "sink" and k[0] == "case"}
            for b in live:
                if "sink" in live[b]:
                    live[b] |= cs
            self.livet[f] = live
        return self.livet[f]

    def alive(self, f, rel):
        """Per block, the relevant variables used before being set again (parameters always)."""
        use, kill = {}, {}
        for b in f.cfg.blocks:
            u, k = set(), set()
            for e in f.cfg.blocks[b].elems:
                if isinstance(e, (list, tuple)):
                    continue
                tgt = None
                if f.kind(e) == "asg":
                    tgt = f.var_of(f.kids(e)[0])
                for m in f.walk(e):
                    if f.kind(m) == "var" and f.pay(m) in rel and f.pay(m) not in k:
                        if tgt == f.pay(m) and m == f.unwrap(f.kids(e)[0]):
                            continue
                        u.add(f.pay(m))
                if tgt is not None:
                    k.add(tgt)
                if f.kind(e) == "decl":
                    k |= {v for v, _ in f.pay(e)}
            c = f.cfg.blocks[b].cond
            if c is not None and c >= 0:
                u |= {f.pay(m) for m in f.walk(c) if f.kind(m) == "var" and f.pay(m) in rel and f.pay(m) not in k}
            use[b], kill[b] = u, k
        live = {b: set(u) for b, u in use.items()}
        change = True
        while change:
            change = False
            for b in f.cfg.blocks:
                out = set()
                for t, _ in f.cfg.edges(b):
                    out |= live[t]
                n = use[b] | (out - kill[b])
                if n != live[b]:
                    live[b] = n
                    change = True
        ps = set(f.params)
        return {b: frozenset(s | ps) for b, s in live.items()}

    def own_size(self, f, c, args, s, st):
        """A copy of exactly the number of elements its source has."""
        if c not in self.sized:
            return False
        li, fn, vi = self.sized[c]
        v = f.var_of(f.unwrap(args[li]))
        if v is None:
            return False
        for n, d in self.defs(f).get(v, ()):
            if f.kind(d) == "call" and f.callee(d) == fn:
                h = self.held(f, f.args(d)[vi])
                if h is not None and (st[3].get(h, h) == s[0]) and \
                        not any(k[0] == "eq" and k[1] == f.varname(v) and t for k, t in st[0]):
                    if f.cfg.dominates(f.cfg.where(n)[0], f.cfg.where(args[li])[0]):
                        return True
        return False

    def fact_key(self, f, n):
        n = f.unwrap(n)
        if n < 0:
            return None
        if f.kind(n) == "call" and f.callee(n) in self.facts:
            return (f.callee(n),) + tuple(f.txt(a) for a in f.args(n))
        if f.kind(n) == "var":
            return self.aliases(f).get(f.pay(n)) or ("var", f.varname(f.pay(n)))
        if f.kind(n) == "bin" and f.pay(n) in ("==", "!="):
            a, b = f.kids(n)
            for x, y in ((a, b), (b, a)):
                v = f.var_of(f.unwrap(x))
                c = f.const(f.unwrap(y))
                if v is not None and c is not None:
                    nm = f.pay(f.unwrap(y)) if f.kind(f.unwrap(y)) == "enum" else c
                    return ("eq", f.varname(v), nm), f.pay(n) == "=="
                if c is not None and f.kind(f.unwrap(x)) == "mem":
                    nm = f.pay(f.unwrap(y)) if f.kind(f.unwrap(y)) == "enum" else c
                    return ("eq", f.txt(f.unwrap(x)), nm), f.pay(n) == "=="
                if c is not None and f.kind(f.unwrap(x)) == "call":
                    w = f.unwrap(x)
                    nm = f.pay(f.unwrap(y)) if f.kind(f.unwrap(y)) == "enum" else c
                    return ("eq", f.callee(w) + "(" + ",".join(f.txt(q) for q in f.args(w)) + ")", nm), f.pay(n) == "=="
        return self.flag(f, n)

    @staticmethod
    def flag(f, n):
        if f.kind(n) == "bin" and f.pay(n) == "&":
            for x in f.kids(n):
                x = f.unwrap(x)
                if f.kind(x) == "enum":
                    return ("flag", f.pay(x))
        return None

    def aliases(self, f):
        if f not in self.alias:
            seen, out = {}, {}
            for n in f.walk():
                prs = []
                if f.kind(n) == "decl":
                    prs = [(v, i) for v, i in f.pay(n) if i >= 0]
                elif f.kind(n) == "asg":
                    prs = [(f.var_of(f.kids(n)[0]), f.kids(n)[1])]
                for v, i in prs:
                    if v is None:
                        continue
                    seen[v] = seen.get(v, 0) + 1
                    i = f.unwrap(i)
                    if i >= 0 and f.kind(i) == "call" and f.callee(i) in self.facts:
                        out[v] = (f.callee(i),) + tuple(f.txt(a) for a in f.args(i))
                    elif i >= 0 and self.flag(f, i):
                        out[v] = self.flag(f, i)
            self.alias[f] = {v: k for v, k in out.items() if seen[v] == 1}
        return self.alias[f]

    def run(self, f, params=()):
        """(unchecked sinks, variables checked at every exit)."""
        bad = {}
        summ = bool(params) and f not in self.returns
        # a helper that checks a parameter unless its type needs no check
        lets = summ and any(f.callee(c) in self.checks or self.sum_check.get(self.prog.callee(f, c)) for c in f.calls())
        mine = frozenset(f.params[i] for i in params)
        rel = self.relevant(f)
        dull = {}

        def is_dull(e):
            if e not in dull:
                dull[e] = self.dull(f, e)
            return dull[e]

        def one(st, e, b, i, rec):
            facts, un, ck, org = st
            k = f.kind(e)
            if k == "call":
                c = f.callee(e)
                g = self.prog.callee(f, e)
                args = f.args(e)
                idx = [self.sinks[c]] if c in self.sinks else sorted(self.sum_sink.get(g, ()))
                for x in idx:
                    if x < len(args):
                        s = self.status(f, args[x], st)
                        if s is not None:
                            if rec and not summ:
                                self.sites.setdefault((f, e, x), True)
                            want = self.sum_sink.get(g, {}).get(x) if c not in self.sinks else None
                            if want is not None:
                                have = self.cases(facts)
                                lit = {f.const(a) for a in args if f.kind(f.unwrap(a)) == "enum"}
                                if have is not None and not want & have and not lit or lit and not want & lit:
                                    continue
                            if s[1] and rec:
                                self.met.add((f, c))
                            if not s[1] and not self.excused(f, e, facts) and not self.own_size(f, c, args, s, st):
                                if rec:
                                    bad[(e, x, s[0])] = self.merge(bad.get((e, x, s[0]), ()), self.cases(facts))
                idx = [self.checks[c]] if c in self.checks else sorted(self.sum_check.get(g, ()))
                for x in idx:
                    v = self.held(f, args[x]) if x < len(args) else None
                    if v is not None:
                        o = org.get(v, v)
                        same = {w for w in un | ck if org.get(w, w) == o} | {v, o}
                        same = {w for w in same if w in rel or w in f.params}
                        un, ck = un - same, ck | same
                if self.prog.call_noreturn(f, e):
                    return None
                return (facts, un, ck, org)
            prs = []
            if k == "decl":
                prs = f.pay(e)
            elif k == "asg" and f.var_of(f.kids(e)[0]) is not None:
                prs = [(f.var_of(f.kids(e)[0]), f.kids(e)[1])]
            elif k == "asg" and f.kind(f.unwrap(f.kids(e)[0])) == "idx":
                prs = [(f.var_of(f.kids(f.unwrap(f.kids(e)[0]))[0]), f.kids(e)[1])]
                if prs[0][0] is None:
                    prs = []
            elif k == "ret" and f in self.returns and f.kids(e) and f.kids(e)[0] >= 0:
                s = self.status(f, f.kids(e)[0], st)
                if s is not None:
                    if rec and not summ:
                        self.sites.setdefault((f, e, -1), True)
                    if not s[1] and not self.excused(f, e, facts):
                        if rec:
                            bad[(e, -1, s[0])] = None
                    elif s[1] and rec:
                        self.met.add((f, "return"))
            for v, i in prs:
                s = self.status(f, i, (facts, un, ck, org)) if i >= 0 and v in rel else None
                un, ck = un - {v}, ck - {v}
                org = {a: b for a, b in org.items() if a != v} if v in org else org
                if s is not None:
                    if s[0] is not None and s[0] != v:
                        org = {**org, v: s[0]}
                    if s[1]:
                        ck = ck | {v}
                    else:
                        un = un | {v}
                # facts about a reassigned variable
                if k == "asg":
                    rx = re.compile(r"\b%s\b" % re.escape(f.varname(v) or "?"))
                    facts = frozenset(x for x in facts if not any(rx.search(str(t)) for t in x[0][1:]))
            return (facts, un, ck, org)

        lv = self.alive(f, rel)

        def trim(d, s):
            keep = lv.get(s, frozenset())
            return (d[0], d[1] & keep, d[2] & keep, tuple(x for x in d[3] if x[0] in keep))

        def freeze(st):
            return (st[0], frozenset(st[1]), frozenset(st[2]), tuple(sorted(st[3].items())))

        def thaw(st):
            return (st[0], st[1], st[2], dict(st[3]))

        def transfer(S, e, b, i):
            if isinstance(e, (list, tuple)) or is_dull(e):
                return S
            out = set()
            for d in S:
                r = one(thaw(d), e, b, i, False)
                if r is not None:
                    out.add(freeze(r))
            return frozenset(out) or None

        def edge(S, b, s, kind):
            r = edge1(S, b, s, kind)
            return r if r is None else frozenset(trim(d, s) for d in r)

        def edge1(S, b, s, kind):
            cond = f.cfg.blocks[b].cond
            if cond is None or cond < 0:
                return S
            if isinstance(kind, tuple) and kind[0] == "case":
                k = ("case", f.txt(cond))
                out = set()
                for d in S:
                    facts = dict(d[0])
                    if k in facts and not set(facts[k]) & set(kind[1]):
                        continue
                    facts[k] = tuple(kind[1])
                    out.add((frozenset(facts.items()),) + d[1:])
                return frozenset(out) or None
            if kind is not True and kind is not False:
                return S
            ats = [(self.fact_key(f, n), v) for n, v in core.atoms(f, cond, kind)]
            ats = [(k[0], v == k[1]) if isinstance(k[0], tuple) else (k, v) for k, v in ats if k]
            ats = [(k, v) for k, v in ats if k in self.useful(f)]
            live = self.live(f).get(s, frozenset())
            if not ats:
                if all(k in live for d in S for k, _ in d[0]):
                    return S
                return frozenset((frozenset(x for x in d[0] if x[0] in live),) + d[1:] for d in S)
            out = set()
            for d in S:
                facts = dict(d[0])
                if any(facts.get(k, v) != v for k, v in ats):
                    continue
                facts.update(ats)
                if lets and d[1] & mine and self.excused(f, None, frozenset(facts.items())):
                    d = (d[0], d[1] - mine, d[2] | d[1] & mine) + d[3:]
                facts = {k: v for k, v in facts.items() if k in live}
                out.add((frozenset(facts.items()),) + d[1:])
            return frozenset(out) or None

        def join(a, b):
            u = a | b
            if len(u) <= CAP:
                return u
            # forget the facts
            m = {}
            for d in u:
                m.setdefault(d[1:], []).append(d[0])
            return frozenset((frozenset.intersection(*fs),) + r for r, fs in m.items())

        init = (frozenset(), frozenset(f.params[i] for i in params), frozenset(), ())
        ins = core.forward(f, frozenset([init]), transfer, edge, join)
        chk = None
        for b, S in ins.items():
            for i, e in enumerate(f.cfg.blocks[b].elems):
                if isinstance(e, (list, tuple)) or is_dull(e):
                    continue
                for d in S:
                    one(thaw(d), e, b, i, True)
                S = transfer(S, e, b, i)
                if S is None:
                    break
            if S is not None and b == f.cfg.exit:
                for d in S:
                    chk = d[2] if chk is None else chk & d[2]
        return [k + (v,) for k, v in bad.items()], chk or frozenset()

    @staticmethod
    def cases(facts):
        """The switch cases a path is in (None: not in a switch)."""
        out = None
        for k, v in facts:
            if k[0] == "case":
                out = frozenset(v) if out is None else out | frozenset(v)
        return out

    @staticmethod
    def merge(a, b):
        return None if a is None or b is None else frozenset(a) | b
