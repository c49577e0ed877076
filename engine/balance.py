"""Balanced acquire/release along every path.

A class of paired operations (push_scope/pop_scope, lock/unlock, begin/end) is
tracked as a depth along every path of every function.  Branches on the same
unmodified condition are correlated, so `if (x) push(); ... if (x) pop();` is
balanced.  Functions are summarised by (net depth, returned constant); callers
apply the summary and refine on the result."""
import core
from facts import AnalysisError

CAP = 64


def unwrap(fn, n):
    """Look through casts and statement expressions."""
    n = fn.unwrap(n)
    while n >= 0 and fn.kind(n) == "stmtexpr":
        ks = fn.kids(fn.kids(n)[0])
        if not ks or fn.kind(ks[-1]) in ("decl", "ret", "block"):
            return n
        n = fn.unwrap(ks[-1])
    return n


def exhaustive(prog, fn, consts):
    """Do the case labels with these values name every member of their enum?"""
    by = prog.__dict__.setdefault("_enum_of", None)
    if by is None:
        by = {}
        for e, cs in prog.enums.items():
            for c, v in cs:
                by[c] = e
        prog._enum_of = by
    lab = fn.cache.get("case-enums")
    if lab is None:
        lab = {}
        for n in fn.walk():
            if fn.kind(n) == "case" and fn.kids(n) and fn.kind(fn.kids(n)[0]) == "enum":
                e = by.get(fn.txt(fn.kids(n)[0]))
                if e is not None:
                    lab.setdefault(fn.const(fn.kids(n)[0]), set()).add(e)
        fn.cache["case-enums"] = lab
    es = None
    for c in consts:
        s = lab.get(c)
        if not s:
            return False
        es = set(s) if es is None else es & s
    return any({v for _, v in prog.enums[e]} <= set(consts) for e in es or ())


class Balance:
    def __init__(self, prog, up, down, within=None, volatile=()):
        """up/down: names of the primitives; volatile: calls whose repeated
        results are not correlated."""
        self.prog = prog
        self.within = within
        self.up, self.down = set(up), set(down)
        self.volatile = set(volatile)
        self.sum = {}
        self.sites = 0
        self.bad = []
        self.touch = self.closure(prog)
        self.solve()

    def closure(self, prog):
        prims = self.up | self.down
        rev, direct = {}, set()
        for f in prog.fns:
            if f.name in prims or (self.within and f.file not in self.within):
                continue
            for n in f.calls():
                nm = f.callee(n)
                if nm in prims:
                    direct.add(f)
                    self.sites += 1
                else:
                    c = prog.callee(f, n)
                    if c is not None:
                        rev.setdefault(c, set()).add(f)
        self.rev, self.direct = rev, direct
        return direct

    # ---- conditions

    def pure(self, fn, n):
        """A condition that has the same value while its variables are not assigned."""
        for x in fn.walk(n):
            k = fn.kind(x)
            if k == "call":
                nm = fn.callee(x)
                if nm is None or nm in self.volatile:
                    return False
            elif k == "asg" or (k == "un" and ("++" in fn.pay(x) or "--" in fn.pay(x))):
                return False
        return True

    def assume(self, fn, n, truth, env):
        """env refined by condition n being truth, or None."""
        n = unwrap(fn, n)
        if n < 0:
            return env
        c = fn.const(n)
        if c is not None:
            return env if bool(c) == truth else None
        k = fn.kind(n)
        if k == "cast":
            return self.assume(fn, fn.kids(n)[0], truth, env)
        if k == "un" and fn.pay(n) == "!":
            return self.assume(fn, fn.kids(n)[0], not truth, env)
        if k == "call" and fn.callee(n) == "__builtin_expect":
            return self.assume(fn, fn.args(n)[0], truth, env)
        if k == "bin" and fn.pay(n) in ("&&", "||"):
            a, b = fn.kids(n)
            if (fn.pay(n) == "&&") == truth:
                e = self.assume(fn, a, truth, env)
                return None if e is None else self.assume(fn, b, truth, e)
            ea, eb = self.assume(fn, a, truth, env), self.assume(fn, b, truth, env)
            if ea is None and eb is None:
                return None
            if ea is None:
                e = self.assume(fn, a, not truth, env)
                return None if e is None else self.assume(fn, b, truth, e)
            if eb is None:
                return ea
            return env
        if k == "bin" and fn.pay(n) in ("<", ">", "<=", ">="):
            return self.relational(fn, n, truth, env)
        key, val = self.atom(fn, n)
        if key is None:
            return env
        cur = env.get(key)
        if val is True:
            if cur is not None:
                return env if (cur == truth if isinstance(cur, bool) else
                               self.truthof(cur) in (None, truth)) else None
            e = dict(env)
            e[key] = truth
            return e
        # comparison with a constant
        return self.isin(env, key, frozenset([val[1]]), truth == val[0])

    def relational(self, fn, n, truth, env):
        """Ordering comparisons: decided for known values, else an atom."""
        a, b = fn.kids(n)
        op = fn.pay(n)
        if fn.const(a) is not None:
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        c = fn.const(b)
        if c is not None:
            x = unwrap(fn, a)
            if fn.kind(x) == "asg" and fn.pay(x) == "=":
                x = unwrap(fn, fn.kids(x)[0])
            key = self.keyof(fn, x)
            cur = env.get(key) if key is not None else None
            if isinstance(cur, tuple) and cur[0]:
                f = {"<": lambda v: v < c, ">": lambda v: v > c, "<=": lambda v: v <= c, ">=": lambda v: v >= c}[op]
                keep = frozenset(v for v in cur[1] if f(v) == truth)
                if not keep:
                    return None
                if keep == cur[1]:
                    return env
                e = dict(env)
                e[key] = (True, keep)
                return e
        if not self.pure(fn, n):
            return env
        key = fn.txt(n)
        cur = env.get(key)
        if cur is not None:
            return env if cur == truth else None
        e = dict(env)
        e[key] = truth
        return e

    @staticmethod
    def truthof(cur):
        if isinstance(cur, bool):
            return cur
        sign, vals = cur
        if sign:
            t = {bool(v) for v in vals}
            return t.pop() if len(t) == 1 else None
        return True if 0 in vals else None

    def isin(self, env, key, consts, inside):
        cur = env.get(key)
        if isinstance(cur, bool):
            cur = (False, frozenset([0])) if cur else (True, frozenset([0]))
        if cur is None:
            new = (True, consts) if inside else (False, consts)
        else:
            sign, vals = cur
            if sign:
                v = vals & consts if inside else vals - consts
                if not v:
                    return None
                new = (True, v)
            elif inside:
                v = consts - vals
                if not v:
                    return None
                new = (True, v)
            else:
                new = (False, vals | consts)
        e = dict(env)
        e[key] = new
        return e

    def atom(self, fn, n):
        """(key, True) for a truth test, (key, (equal?, const)) for a comparison."""
        k = fn.kind(n)
        if k == "bin" and fn.pay(n) in ("==", "!="):
            a, b = fn.kids(n)
            if fn.const(a) is not None:
                a, b = b, a
            c = fn.const(b)
            if c is None and self.isnull(fn, b):
                c = 0
            if c is not None:
                a2 = unwrap(fn, a)
                if fn.kind(a2) == "asg" and fn.pay(a2) == "=":
                    a2 = unwrap(fn, fn.kids(a2)[0])
                key = self.keyof(fn, a2)
                if key is None:
                    return None, None
                if isinstance(key, tuple) and key[0] == "r":
                    return key, (fn.pay(n) == "==", c)
                return key, (fn.pay(n) == "==", c)
        if k == "asg" and fn.pay(n) == "=":
            n = unwrap(fn, fn.kids(n)[0])
        return self.keyof(fn, n), True

    @staticmethod
    def isnull(fn, n):
        return fn.const(n) == 0 or fn.txt(n).replace(" ", "") in ("NULL", "((void*)0)", "(void*)0")

    def keyof(self, fn, n):
        n = unwrap(fn, n)
        while fn.kind(n) == "cast":
            n = unwrap(fn, fn.kids(n)[0])
        if fn.kind(n) == "call":
            if self.tracked(fn, n):
                return ("r", n)
            # repeated call with the same arguments
        if not self.pure(fn, n):
            return None
        return fn.txt(n)

    def tracked(self, fn, n):
        c = self.prog.callee(fn, n)
        return c is not None and c in self.sum

    def vars_in(self, fn, n):
        return {fn.pay(x) for x in fn.walk(n) if fn.kind(x) == "var"}

    # ---- transfer

    def kill(self, fn, env, var):
        d = fn.cache.setdefault(("bal-kv", id(self)), {})
        out = None
        for k in env:
            if isinstance(k, tuple):
                continue
            if k not in d:
                d[k] = k
            if self.mentions(fn, k, var):
                if out is None:
                    out = dict(env)
                out.pop(k, None)
        return out if out is not None else env

    def mentions(self, fn, text, var):
        nm = fn.varname(var)
        i = text.find(nm)
        while i >= 0:
            a = text[i - 1] if i else " "
            j = i + len(nm)
            b = text[j] if j < len(text) else " "
            if not (a.isalnum() or a == "_") and not (b.isalnum() or b == "_") and not text[:i].rstrip().endswith(("->", ".")):
                return True
            i = text.find(nm, i + 1)
        return False

    def kill_text(self, env, text):
        if text not in env and not any(isinstance(k, str) and text in k for k in env):
            return env
        return {k: v for k, v in env.items() if isinstance(k, tuple) or text not in k}

    def assign(self, fn, v, init, env):
        env = self.kill(fn, env, v)
        if init is None or init < 0:
            return env
        nm = fn.varname(v)
        c = fn.const(init)
        x = unwrap(fn, init)
        while fn.kind(x) == "cast":
            x = unwrap(fn, fn.kids(x)[0])
        e = env
        if c is None and self.isnull(fn, x):
            c = 0
        if c is not None:
            e = dict(env)
            e[nm] = (True, frozenset([c]))
        elif fn.kind(x) == "call" and ("r", x) in env:
            e = dict(env)
            e[nm] = env[("r", x)]
        elif fn.kind(x) == "var":
            o = env.get(fn.txt(x))
            if o is not None:
                e = dict(env)
                e[nm] = o
        return e

    def call(self, fn, n, sts):
        nm = fn.callee(n)
        if nm in self.up:
            return [(d + 1, e) for d, e in sts]
        if nm in self.down:
            return [(d - 1, e) for d, e in sts]
        c = self.prog.callee(fn, n)
        if c is None or c not in self.sum:
            return sts
        out = []
        for d, e in sts:
            for dd, r in self.sum[c]:
                e2 = e
                if r is not None and len(self.sum[c]) > 1:
                    e2 = dict(e)
                    e2[("r", n)] = (r[0], r[1])
                out.append((d + dd, e2))
        return out

    def before(self, fn, e, sts):
        return sts

    @staticmethod
    def freeze(sts):
        seen = {}
        for d, e in sts:
            k = (d, frozenset(e.items()))
            seen.setdefault(k, (d, e))
        return list(seen.values())

    def cap(self, sts):
        sts = self.freeze(sts)
        if len(sts) <= CAP:
            return sts
        by = {}
        for d, e in sts:
            if d in by:
                o = by[d]
                by[d] = {k: v for k, v in o.items() if e.get(k) == v}
            else:
                by[d] = e
        return list(by.items())

    def retval(self, fn, n, env):
        x = unwrap(fn, n)
        while x >= 0 and fn.kind(x) == "cast":
            x = unwrap(fn, fn.kids(x)[0])
        c = fn.const(n)
        if c is None and self.isnull(fn, x):
            c = 0
        if c is not None:
            return (True, frozenset([c]))
        if fn.kind(x) == "call" and ("r", x) in env:
            v = env[("r", x)]
            return ((False, frozenset([0])) if v else (True, frozenset([0]))) if isinstance(v, bool) else v
        v = env.get(fn.txt(x))
        if isinstance(v, bool):
            return (False, frozenset([0])) if v else (True, frozenset([0]))
        if v is not None:
            return v
        if fn.kind(x) == "un" and fn.pay(x) == "&":
            return (False, frozenset([0]))
        return None

    def analyse(self, fn):
        """[(depth, ret, site)] at normal exits; loops that change the depth
        are reported."""
        cfg = fn.cfg
        order = {b: i for i, b in enumerate(cfg.rpo())}
        seen = {cfg.entry: [(0, {})]}
        work = [cfg.entry]
        outs = []
        got = set()
        n = 0
        while work:
            n += 1
            if n > 20000:
                raise AnalysisError("balance analysis of %s did not converge" % fn.name)
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            blk = cfg.blocks[b]
            sts = seen[b]
            stop = False
            for e in blk.elems:
                if isinstance(e, (list, tuple)) and e[0] == "cleanup":
                    if e[2] in self.down:
                        sts = [(d - 1, env) for d, env in sts]
                    sts = self.before(fn, e, sts)
                    continue
                if not (isinstance(e, int) and e >= 0):
                    continue
                k = fn.kind(e)
                if k == "call":
                    if self.prog.call_noreturn(fn, e):
                        stop = True
                        break
                    sts = self.call(fn, e, self.before(fn, e, sts))
                    for a in fn.args(e):
                        x = fn.skip_casts(fn.unwrap(a))
                        if x >= 0 and fn.kind(x) == "un" and fn.pay(x) == "&":
                            v = fn.var_of(fn.kids(x)[0])
                            if v is not None:
                                sts = [(d, self.kill(fn, env, v)) for d, env in sts]
                    if len(sts) > CAP:
                        sts = self.cap(sts)
                elif k == "decl":
                    sts = self.before(fn, e, sts)
                    for v, init in fn.pay(e):
                        sts = [(d, self.assign(fn, v, init, env)) for d, env in sts]
                elif k == "asg":
                    sts = self.before(fn, e, sts)
                    l, r = fn.kids(e)
                    v = fn.var_of(l)
                    if v is not None:
                        sts = [(d, self.assign(fn, v, r if fn.pay(e) == "=" else None, env)) for d, env in sts]
                    else:
                        t = fn.txt(l)
                        sts = [(d, self.kill_text(env, t)) for d, env in sts]
                elif k == "un" and ("++" in fn.pay(e) or "--" in fn.pay(e)):
                    v = fn.var_of(fn.kids(e)[0])
                    if v is not None:
                        sts = [(d, self.kill(fn, env, v)) for d, env in sts]
                elif k == "ret":
                    sts = self.before(fn, e, sts)
                    ks = fn.kids(e)
                    nx = []
                    for d, env in sts:
                        for y in self.retvals(fn, ks[0], env) if ks else [None]:
                            e2 = dict(env)
                            e2[("ret",)] = (y, e)
                            nx.append((d, e2))
                    sts = nx
            if stop:
                continue
            for s, kind in cfg.edges(b):
                ns = []
                if isinstance(kind, tuple) and kind[0] == "notcase" and exhaustive(self.prog, fn, kind[1]):
                    continue
                for d, env in sts:
                    e2 = env
                    if kind is True or kind is False:
                        e2 = self.assume(fn, blk.cond, kind, env) if blk.cond is not None and blk.cond >= 0 else env
                    elif isinstance(kind, tuple) and blk.cond is not None and blk.cond >= 0:
                        key = self.keyof(fn, blk.cond)
                        if key is not None:
                            e2 = self.isin(env, key, frozenset(kind[1]), kind[0] == "case")
                    if e2 is not None:
                        ns.append((d, e2))
                if s == cfg.exit:
                    for d, env in ns:
                        y, e = env.get(("ret",), (None, -1))
                        q = (d, y, fn.loc(e) if e >= 0 else "end")
                        if q not in got:
                            got.add(q)
                            outs.append((d, y, e))
                    continue
                if not ns:
                    continue
                old = seen.get(s)
                if old is None:
                    seen[s] = self.cap(ns)
                    work.append(s)
                    continue
                oldk = {(d, frozenset(e.items())) for d, e in old}
                # drop states implied by a more general one
                new = []
                for d, e in ns:
                    if (d, frozenset(e.items())) in oldk:
                        continue
                    if any(d == d0 and all(e.get(k) == v for k, v in e0.items()) for d0, e0 in old):
                        continue
                    new.append((d, e))
                if new:
                    depths = {d for d, e in old} | {d for d, e in new}
                    if max(depths) - min(depths) > 12 or max(map(abs, depths)) > 14:
                        self.diverge.append((fn, b))
                        continue
                    seen[s] = self.cap(old + new)
                    if s not in work:
                        work.append(s)
        return outs

    def retvals(self, fn, n, env):
        """Possible known values of a returned expression; splits conditions."""
        x = unwrap(fn, n)
        while x >= 0 and fn.kind(x) == "cast":
            x = unwrap(fn, fn.kids(x)[0])
        c = fn.const(n)
        if c is None and fn.kind(x) == "bin" and fn.pay(x) in ("==", "!=", "&&", "||") or \
                fn.kind(x) == "un" and fn.pay(x) == "!":
            t, f = self.assume(fn, x, True, env), self.assume(fn, x, False, env)
            if t is None:
                return [(True, frozenset([0]))]
            if f is None:
                return [(True, frozenset([1]))]
            return [None]
        return [self.retval(fn, n, env)]

    def squash(self, outs):
        by = {}
        for d, r, _ in outs:
            by.setdefault(d, set()).add(r)
        s = set()
        for d, rs in by.items():
            if None in rs or len(by) == 1:
                s.add((d, None))
            else:
                for r in rs:
                    s.add((d, r))
        return frozenset(s)

    @staticmethod
    def separable(summary):
        """Can a caller tell the different net depths apart by the result?"""
        ds = {}
        for d, r in summary:
            ds.setdefault(d, []).append(r)
        if len(ds) <= 1:
            return True
        items = list(ds.items())
        for i, (d, rs) in enumerate(items):
            for d2, rs2 in items[i + 1:]:
                for r in rs:
                    for r2 in rs2:
                        if r is None or r2 is None:
                            return False
                        if r[0] and r2[0]:
                            if r[1] & r2[1]:
                                return False
                        elif r[0] != r2[0]:
                            a, b = (r, r2) if r[0] else (r2, r)
                            if a[1] - b[1]:
                                return False
                        else:
                            return False
        return True

    def solve(self):
        self.diverge = []
        self.res = {}
        work = sorted(self.direct, key=lambda f: (f.file, f.name))
        n = 0
        while work:
            f = work.pop(0)
            n += 1
            if n > 4000:
                raise AnalysisError("balance summaries did not converge")
            if f.cfg_raw is None:
                continue
            self.diverge = [x for x in self.diverge if x[0] is not f]
            outs = self.analyse(f)
            self.res[f] = outs
            s = self.squash(outs)
            if not self.separable(s):
                # reported here; callers see the most common outcome
                s = frozenset([(min((d for d, _ in s), key=abs), None)])
            if self.sum.get(f) != s:
                self.sum[f] = s
                if s != frozenset([(0, None)]) or f in self.rev and any(g in self.res for g in self.rev[f]):
                    if {d for d, _ in s} != {0}:
                        for g in self.rev.get(f, ()):
                            if g not in work:
                                work.append(g)
                    else:
                        for g in self.rev.get(f, ()):
                            if g in self.res and g not in work:
                                work.append(g)

    def violations(self):
        """(fn, [(depth, site)]) of functions whose net effect depends on the path."""
        out = []
        for f, outs in sorted(self.res.items(), key=lambda x: (x[0].file, x[0].name)):
            s = self.squash(outs)
            if not self.separable(s):
                out.append((f, sorted({(d, f.loc(n) if n >= 0 else f.loc(f.body)) for d, r, n in outs}, key=str)))
        for f, b in self.diverge:
            out.append((f, [("loop", f.loc(f.body))]))
        return out


# name -> (fails with, ...): pointers fail with NULL, descriptors with -1
OPENERS = {"fopen": 0, "fdopen": 0, "popen": 0, "opendir": 0, "open": -1, "socket": -1, "accept": -1, "dup": -1,
           "mkstemp": -1, "lib_fopen": 0, "fbuf_open": 0, "lib_fbuf_open": 0, "tmpfile": 0}
CLOSERS = {"fclose": 0, "close": 0, "closedir": 0, "pclose": 0, "fdopen": 0, "fbuf_close": 0, "fdopendir": 0}


class Takes:
    """Which parameters a function closes or stores away on some path."""

    def __init__(self, prog, closers=None, ptr=None):
        self.prog = prog
        self.closers = CLOSERS if closers is None else closers
        self.take = set()
        cand = {}
        for f in prog.fns:
            for i, v in enumerate(f.params):
                t = f.vartype(v)
                if (t.endswith("*") or t in ("int",)) if ptr is None else t in ptr:
                    cand.setdefault(f, []).append((i, v))
        changed = True
        while changed:
            changed = False
            for f, ps in cand.items():
                for i, v in ps:
                    if (f, i) not in self.take and self.takes(f, v):
                        self.take.add((f, i))
                        changed = True

    def is_var(self, fn, n, v):
        n = unwrap(fn, n)
        while n >= 0 and fn.kind(n) == "cast":
            n = unwrap(fn, fn.kids(n)[0])
        return n >= 0 and fn.kind(n) == "var" and fn.pay(n) == v

    def takes(self, f, v):
        fd = f.vartype(v) == "int"
        for n in f.walk():
            k = f.kind(n)
            if k == "call":
                for j, a in enumerate(f.args(n)):
                    if self.is_var(f, a, v) and self.arg_taken(f, n, j):
                        return True
            elif k == "asg" and f.pay(n) == "=":
                l, r = f.kids(n)
                if self.is_var(f, r, v) and f.var_of(l) is None and \
                        (not fd or "fd" in f.txt(l) or "sock" in f.txt(l)):
                    return True
            elif k == "init" and not fd:
                if any(self.is_var(f, x, v) for x in f.kids(n)):
                    return True
        return False

    def arg_taken(self, fn, n, j):
        nm = fn.callee(n)
        if nm is None:
            return True
        if nm in self.closers:
            return self.closers[nm] == j
        c = self.prog.callee(fn, n)
        if c is not None:
            return (c, j) in self.take
        return False


class Owned(Balance):
    """One opened object followed from its opening call to every exit."""

    def __init__(self, prog, takes, fn, node, openers=None):
        self.prog, self.takes, self.fn, self.node = prog, takes, fn, node
        self.up, self.down, self.volatile, self.sum = set(), set(), set(), {}
        self.diverge = []
        self.fail = (OPENERS if openers is None else openers)[fn.callee(node)]
        self.vars = set()
        grow = True
        while grow:
            grow = False
            for n in fn.walk():
                k = fn.kind(n)
                prs = []
                if k == "decl":
                    prs = [(v, i) for v, i in fn.pay(n) if i >= 0]
                elif k == "asg" and fn.pay(n) == "=":
                    v = fn.var_of(fn.kids(n)[0])
                    if v is not None and fn.varkind(v) in ("l", "p"):
                        prs = [(v, fn.kids(n)[1])]
                for v, i in prs:
                    if v not in self.vars and self.res(fn, i):
                        self.vars.add(v)
                        grow = True

    def tracked(self, fn, n):
        return n == self.node

    def assume(self, fn, n, truth, env):
        x = unwrap(fn, n)
        if x >= 0 and fn.kind(x) == "bin" and fn.pay(x) in ("==", "!="):
            a, b = fn.kids(x)
            for p, q in ((a, b), (b, a)):
                v, w = fn.var_of(p), fn.var_of(q)
                if v in self.vars and w is not None and fn.varkind(w) not in ("l", "p"):
                    # a successfully opened stream is not stdin, stdout or stderr
                    if env.get(fn.varname(v)) == (False, frozenset([0])):
                        return env if truth == (fn.pay(x) == "!=") else None
        return Balance.assume(self, fn, n, truth, env)

    def res(self, fn, n):
        n = unwrap(fn, n)
        while n >= 0 and fn.kind(n) == "cast":
            n = unwrap(fn, fn.kids(n)[0])
        if n < 0:
            return False
        k = fn.kind(n)
        if n == self.node:
            return True
        if k == "var":
            return fn.pay(n) in self.vars
        if k == "asg" and fn.pay(n) == "=":
            return self.res(fn, fn.kids(n)[1]) or self.res(fn, fn.kids(n)[0])
        if k == "cond":
            return any(self.res(fn, x) for x in fn.kids(n)[1:])
        return False

    def before(self, fn, e, sts):
        gone = False
        if isinstance(e, (list, tuple)):
            gone = e[1] in self.vars
        else:
            k = fn.kind(e)
            if k == "call" and e != self.node:
                for j, a in enumerate(fn.args(e)):
                    x = unwrap(fn, a)
                    while x >= 0 and fn.kind(x) == "cast":
                        x = unwrap(fn, fn.kids(x)[0])
                    if self.res(fn, a) and self.takes.arg_taken(fn, e, j):
                        gone = True
                    elif x >= 0 and fn.kind(x) == "un" and fn.pay(x) == "&" and self.res(fn, fn.kids(x)[0]):
                        gone = True
            elif k == "asg" and fn.pay(e) == "=":
                l, r = fn.kids(e)
                v = fn.var_of(l)
                if self.res(fn, r) and (v is None or fn.varkind(v) not in ("l", "p")):
                    gone = True
            elif k == "ret" and fn.kids(e):
                gone = self.res(fn, fn.kids(e)[0])
            if not gone and k in ("asg", "decl", "call", "ret"):
                gone = any(fn.kind(x) in ("init", "compound") and any(self.res(fn, y) for y in fn.kids(x))
                           for x in fn.walk(e) if fn.kind(x) in ("init", "compound"))
        return [(0, env) for d, env in sts] if gone else sts

    def call(self, fn, n, sts):
        if n != self.node:
            return sts
        out = []
        for d, e in sts:
            a, b = dict(e), dict(e)
            a[("r", n)] = (False, frozenset([0])) if self.fail in (0, None) else (True, frozenset([3]))
            if self.fail is None:
                b = None
            else:
                b[("r", n)] = (True, frozenset([self.fail]))
            # a direct store into memory is an escape
            p = fn.parent(n)
            while p is not None and p >= 0 and fn.kind(p) in ("cast", "paren"):
                p = fn.parent(p)
            out.append((1, a))
            if b is not None:
                out.append((0, b))
        return out
