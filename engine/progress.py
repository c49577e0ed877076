"""Token-progress analysis of the recursive-descent parsers.

State: (c, p, tok, env): c = a token other than the end of file was consumed,
p = an unbounded lookahead advanced, tok = set (bit mask) of tokens that can be
next, env = what is known of token/flag variables and call results.  Functions
are summarised per set of possible next tokens; recursion is solved by a least
fixpoint."""
import core
from facts import AnalysisError

CUR = "cur"
CAP = 40
MAXS = 24


class Parser:
    def __init__(self, prog, file, eof=0, names=None):
        self.prog, self.file, self.eof = prog, file, eof
        if names:
            self.NAMES = names
        self.fns = {f.name: f for f in prog.in_file(file)}
        self.bit = {}
        self.mask(eof)
        self.other = 1 << 1
        self.bit["other"] = 1
        self.sums = {}          # (fn, mask) -> frozenset of outcomes
        self.deps = {}          # key -> set of dependent keys
        self.early = {}         # key -> set of keys called before consuming
        self.count = {}
        self.scopes = {}
        for f in self.fns.values():
            for n in f.calls():
                if self.prim(f, n) in ("scan", "oneof", "optional", "consume"):
                    for t in self.toks(f, n):
                        self.mask(t)
                elif self.prim(f, n) == "peek":
                    pass
            for n in f.walk():
                if f.kind(n) == "case":
                    c = f.const(f.kids(n)[0]) if f.kids(n) else None
        # every constant a token is compared or switched with
        for f in self.fns.values():
            for n in f.walk():
                c = f.const(n)
                m = f.macro(n) if hasattr(f, "macro") else None
                if c is not None and 0 <= c < 2000:
                    self.mask(c)
        self.U = (1 << len(self.bit)) - 1
        self.EOF = self.mask(eof)
        self.tokfns = self.closure()
        self.work = []

    def mask(self, t):
        if t not in self.bit:
            self.bit[t] = len(self.bit) if t != "other" else 1
            if self.bit[t] == 1 and "other" not in self.bit:
                self.bit["other"] = 1
                self.bit[t] = 2
        return 1 << self.bit[t]

    # ---- primitives

    NAMES = {"_scan": "scan", "_one_of": "oneof", "_expect": "drop", "_vexpect": "drop", "optional": "optional",
             "consume": "consume", "drop_token": "drop", "peek_nth": "peek", "processed_yylex": "lex"}

    def prim(self, fn, n):
        nm = fn.callee(n)
        return self.NAMES.get(nm) if nm and (nm in self.fns or nm == "processed_yylex") else None

    def toks(self, fn, n):
        a = fn.args(n)
        nm = fn.callee(n)
        if nm in ("_scan", "_one_of"):
            a = a[1:-1]
        out = []
        for x in a:
            c = fn.const(x)
            if c is None:
                return []
            out.append(c)
        return out

    def maybe(self, fn, n):
        """(definite, possible) tokens of a call whose list has conditional entries."""
        a = fn.args(n)
        if fn.callee(n) in ("_scan", "_one_of"):
            a = a[1:-1]
        may, must = set(), set()
        end = False
        for x in a:
            c = fn.const(x)
            if c is not None:
                (may if end else must).add(c)
                continue
            y = fn.unwrap(x)
            if fn.kind(y) != "cond":
                return None
            for z in fn.kids(y)[1:]:
                c = fn.const(z)
                if c is None:
                    return None
                if c == -1:
                    end = True      # may terminate the list
                else:
                    may.add(c)
        return must, may | must

    def closure(self):
        s = {f for f in self.fns if f in self.NAMES}
        call = {f.name: {f.callee(n) for n in f.calls()} for f in self.fns.values()}
        while True:
            add = {f for f, c in call.items() if f not in s and c & s}
            if not add:
                return s
            s |= add

    # ---- environment helpers

    @staticmethod
    def setv(st, k, v):
        c, p, t, env = st
        d = dict(env)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return (c, p, t, tuple(sorted(d.items(), key=repr)))

    @staticmethod
    def getv(st, k):
        for a, b in st[3]:
            if a == k:
                return b
        return None

    def value(self, fn, n, st):
        n = fn.unwrap(n)
        if n < 0:
            return None
        c = fn.const(n)
        if c is not None:
            return frozenset([c])
        k = fn.kind(n)
        if k == "call":
            return self.getv(st, ("n", n))
        if k == "cast":
            return self.value(fn, fn.kids(n)[0], st)
        if k == "asg" and fn.pay(n) == "=":
            return self.value(fn, fn.kids(n)[0], st)
        if k == "cond":
            t = self.getv(st, ("t", fn.unwrap(fn.kids(n)[0])))
            return self.value(fn, fn.kids(n)[1 if t else 2], st) if t is not None else None
        if self.boolean(fn, n):
            y, z = bool(self.assume(fn, n, True, st)), bool(self.assume(fn, n, False, st))
            return frozenset([1]) if y and not z else frozenset([0]) if z and not y else None
        v = fn.var_of(n)
        if v is not None and fn.varkind(v) in ("l", "p"):
            return self.getv(st, ("v", v))
        return None

    @staticmethod
    def boolean(fn, n):
        k = fn.kind(n)
        return (k == "bin" and fn.pay(n) in ("&&", "||", "==", "!=")) or (k == "un" and fn.pay(n) == "!")

    def values(self, fn, n, st):
        """(state, value) pairs: a condition stored in a variable splits the state."""
        x = fn.unwrap(n)
        if x >= 0 and fn.kind(x) == "cond":
            t = self.getv(st, ("t", fn.unwrap(fn.kids(x)[0])))
            if t is not None:
                return self.values(fn, fn.kids(x)[1 if t else 2], st)
        if x >= 0 and fn.const(x) is None and self.boolean(fn, x):
            return [(s, frozenset([v])) for v in (1, 0) for s in self.assume(fn, x, bool(v), st)]
        return [(st, self.value(fn, n, st))]

    def freeze(self, st, mask):
        """The current token is about to go: variables equal to it keep its set."""
        c, p, t, env = st
        ks = None
        out = []
        for k, v in env:
            if v == CUR:
                if ks is None:
                    ks = frozenset(x for x in self.bit if x != "other" and (1 << self.bit[x]) & mask)
                    full = bool(mask & self.other) or len(ks) > 40
                v = ("m", mask)
            out.append((k, v))
        return (c, p, t, tuple(out))

    def consume(self, st):
        """Outcomes of dropping one token."""
        c, p, t, env = st
        out = []
        rest = t & ~self.EOF
        if rest:
            s = self.freeze((c, p, t, env), rest)
            out.append((True, s[1], self.U, s[3]))
        if t & self.EOF:
            s = self.freeze((c, p, t, env), self.EOF)
            out.append((c, p, self.EOF, s[3]))
        return out

    def narrow(self, st, mask):
        t = st[2] & mask
        return None if not t else (st[0], st[1], t, st[3])

    # ---- transfer

    def call(self, fn, n, st, key):
        nm = fn.callee(n)
        pr = self.prim(fn, n)
        K = ("n", n)
        if pr == "peek":
            a = fn.args(n)
            c = fn.const(a[0]) if a else 1
            if c == 1:
                return [self.setv(st, K, CUR)]
            if c is None:
                # unbounded lookahead: each step sees one more token
                x = (st[0], True, st[2], st[3])
                return [self.setv(x, K, ("m", self.U & ~self.EOF)), self.setv(st, K, frozenset([self.eof]))]
            return [self.setv(st, K, None)]
        if pr == "lex":
            x = (True, st[1], st[2], st[3])
            return [self.setv(x, K, ("m", self.U & ~self.EOF)), self.setv(st, K, frozenset([self.eof]))]
        if pr == "drop":
            return [self.setv(s, K, None) for s in self.consume(st)]
        if pr in ("scan", "optional", "oneof", "consume"):
            ts = self.toks(fn, n)
            out = []
            lists = self.maybe(fn, n) if not ts and pr == "scan" else None
            if lists:
                my, mn = 0, 0
                for t in lists[1]:
                    my |= self.mask(t)
                for t in lists[0]:
                    mn |= self.mask(t)
                yes, no = self.narrow(st, my), self.narrow(st, ~mn)
                return ([self.setv(yes, K, frozenset([1]))] if yes else []) + \
                    ([self.setv(no, K, frozenset([0]))] if no else [])
            if not ts:      # token not constant here
                if pr in ("oneof", "consume"):
                    return [self.setv(s, K, None) for s in self.consume(st)]
                if pr == "optional":
                    return [self.setv(s, K, frozenset([1])) for s in self.consume(st)] + \
                        [self.setv(st, K, frozenset([0]))]
                return [self.setv(st, K, None)]
            m = 0
            for t in ts:
                m |= self.mask(t)
            yes, no = self.narrow(st, m), self.narrow(st, ~m)
            if pr == "scan":
                if yes:
                    out.append(self.setv(yes, K, frozenset([1])))
                if no:
                    out.append(self.setv(no, K, frozenset([0])))
            elif pr == "optional":
                if yes:
                    out += [self.setv(s, K, frozenset([1])) for s in self.consume(yes)]
                if no:
                    out.append(self.setv(no, K, frozenset([0])))
            elif pr == "consume":
                if yes:
                    out += [self.setv(s, K, frozenset([1])) for s in self.consume(yes)]
                if no:
                    out += [self.setv(s, K, frozenset([0])) for s in self.consume(no)]
            else:
                if yes:
                    v = frozenset(t for t in ts if self.mask(t) & yes[2])
                    out += [self.setv(s, K, v) for s in self.consume(yes)]
                if no:
                    out += [self.setv(s, K, frozenset([-1])) for s in self.consume(no)]
            return out
        cal = self.prog.callee(fn, n) if nm else None
        if cal is not None and cal.noreturn:
            return []
        if nm in self.tokfns and nm in self.fns:
            g = self.fns[nm]
            k2 = self.key(nm, st[2])
            if not st[0]:
                self.early.setdefault(key, {}).setdefault(k2, (fn, n))
            out = []
            for c, p, t, r in self.summary(k2, key):
                if c:
                    s = self.freeze(st, st[2])
                    s = (True, s[1], t, s[3])
                else:
                    tt = st[2] & t
                    if not tt:
                        continue
                    s = (st[0], st[1] or p, tt, st[3])
                out.append(self.setv(s, K, r))
            return out
        return [st]

    def key(self, nm, tok):
        """Summaries are kept per token set, at most MAXS of them per function."""
        d = self.count.setdefault(nm, set())
        if tok in d or len(d) < MAXS:
            d.add(tok)
            return (nm, tok)
        return (nm, self.U)

    def elem(self, fn, e, sts, key):
        if not isinstance(e, int) or e < 0:
            return sts
        k = fn.kind(e)
        if k == "call":
            out = []
            for s in sts:
                out += self.call(fn, e, s, key)
            return self.cap(out)
        if k == "asg":
            l, r = fn.kids(e)
            v = fn.var_of(l)
            if v is not None and fn.varkind(v) in ("l", "p"):
                if fn.pay(e) == "=":
                    return self.cap([self.setv(x, ("v", v), y) for s in sts for x, y in self.values(fn, r, s)])
                return [self.setv(s, ("v", v), None) for s in sts]
        elif k == "decl":
            for v, init in fn.pay(e):
                sts = [self.setv(x, ("v", v), y) for s in sts
                       for x, y in (self.values(fn, init, s) if init >= 0 else [(s, None)])]
            return self.cap(sts)
        elif k == "un" and fn.pay(e) in ("++", "--", "post++", "post--", "pre++", "pre--", "&"):
            v = fn.var_of(fn.kids(e)[0])
            if v is not None:
                return [self.setv(s, ("v", v), None) for s in sts]
        return sts

    def cap(self, sts):
        sts = list(dict.fromkeys(sts))
        if len(sts) <= CAP:
            return sts
        out = {}
        for c, p, t, env in sts:
            k = (c, p, tuple((a, b) for a, b in env if a[0] == "t"))
            if k in out:
                o = out[k]
                e2 = dict(o[1])
                d = dict(env)
                e2 = {a: b for a, b in e2.items() if d.get(a) == b}
                out[k] = (o[0] | t, e2)
            else:
                out[k] = (t, dict(env))
        return [(c, p, t, tuple(sorted(e.items(), key=repr))) for (c, p, _), (t, e) in out.items()]

    # ---- branch refinement

    def assume(self, fn, cond, truth, st):
        """States in which cond has the given truth value."""
        n = fn.unwrap(cond)
        if n < 0:
            return [st]
        c = fn.const(n)
        if c is not None:
            return [st] if bool(c) == truth else []
        t = self.getv(st, ("t", n))
        if t is not None:
            return [st] if t == truth else []
        k = fn.kind(n)
        if k == "un" and fn.pay(n) == "!":
            return self.assume(fn, fn.kids(n)[0], not truth, st)
        if k == "bin" and fn.pay(n) in ("&&", "||"):
            a, b = fn.kids(n)
            if (fn.pay(n) == "&&") == truth:
                return [y for x in self.assume(fn, a, truth, st) for y in self.assume(fn, b, truth, x)]
            return self.assume(fn, a, truth, st) + self.assume(fn, b, truth, st)
        if k == "bin" and fn.pay(n) in ("==", "!="):
            a, b = fn.kids(n)
            if fn.const(a) is not None:
                a, b = b, a
            kc = fn.const(b)
            if kc is not None:
                return self.isin(fn, a, {kc}, truth == (fn.pay(n) == "=="), st)
            va, vb = self.value(fn, a, st), self.value(fn, b, st)
            for x, y, xn, yn in ((va, vb, a, b), (vb, va, b, a)):
                if isinstance(y, frozenset) and len(y) == 1:
                    return self.isin(fn, xn, set(y), truth == (fn.pay(n) == "=="), st)
            return [st]
        v = self.value(fn, n, st)
        if v is not None:
            return self.isin(fn, n, {0}, not truth, st)
        return [st]

    def isin(self, fn, n, consts, truth, st):
        v = self.value(fn, n, st)
        if v is None:
            x = fn.unwrap(n)
            var = fn.var_of(x)
            if truth and var is not None and fn.varkind(var) in ("l", "p") and len(consts) == 1:
                return [self.setv(st, ("v", var), frozenset(consts))]
            return [st]
        if v == CUR:
            m = 0
            for c in consts:
                m |= self.mask(c) if c in self.bit else 0
            s = self.narrow(st, m if truth else ~m)
            return [s] if s else []
        if isinstance(v, tuple):      # ("m", mask): a token seen earlier
            m = 0
            for c in consts:
                m |= self.mask(c) if c in self.bit else 0
            r = v[1] & (m if truth else ~m)
            if not r:
                return []
            return [self.rebind(fn, n, ("m", r), st)]
        r = v & frozenset(consts) if truth else v - frozenset(consts)
        if not r:
            return []
        return [self.rebind(fn, n, r, st)]

    def rebind(self, fn, n, v, st):
        x = fn.unwrap(n)
        if fn.kind(x) == "call":
            return self.setv(st, ("n", x), v)
        var = fn.var_of(x)
        if var is not None:
            return self.setv(st, ("v", var), v)
        return st

    def edge(self, fn, blk, kind, sts, dst):
        keep = self.scope(fn, dst)
        if kind is None or blk.cond is None or blk.cond < 0:
            return self.cap([self.clean(s, keep) for s in sts])
        out = []
        for s in sts:
            if kind is True or kind is False:
                out += [self.decided(fn, blk.cond, kind, x) for x in self.assume(fn, blk.cond, kind, s)]
            elif kind[0] == "case":
                out += self.isin(fn, blk.cond, set(kind[1]), True, s)
            elif kind[0] == "notcase":
                out += self.isin(fn, blk.cond, set(kind[1]), False, s)
            else:
                out.append(s)
        return self.cap([self.clean(s, keep) for s in out])

    def scope(self, fn, b):
        """Nodes of the whole logical expression that block b branches on part of."""
        k = (fn.file, fn.name, b)
        if k not in self.scopes:
            self.scopes[k] = frozenset()
            s = set()
            es = [e for e in fn.cfg.blocks[b].elems if isinstance(e, int) and e >= 0]
            n = fn.cfg.blocks[b].cond
            if n is not None and n >= 0:
                es.append(n)
            for n in es:
                root, p = n, fn.parent(n)
                while p is not None and p >= 0 and (fn.kind(p) in ("paren", "cast", "cond") or
                                                    (fn.kind(p) == "bin" and fn.pay(p) in ("&&", "||")) or
                                                    (fn.kind(p) == "un" and fn.pay(p) == "!")):
                    p, root = fn.parent(p), p
                if root in s:
                    continue
                if fn.kind(root) == "decl":
                    for v, init in fn.pay(root):
                        if init >= 0:
                            s.update(fn.walk(init))
                elif fn.kind(root) in ("asg", "ret") or fn.kind(fn.unwrap(root)) in ("bin", "un", "cond"):
                    s.update(fn.walk(root))
            if not s and len(fn.cfg.edges(b)) == 1:
                s = self.scope(fn, fn.cfg.edges(b)[0][0])
            s = frozenset(s)
            self.scopes[k] = s
        return self.scopes[k]

    def decided(self, fn, cond, truth, st):
        """Remember how an operand of && or || came out: the block joining the
        operands branches on the whole expression without evaluating it again."""
        n = fn.unwrap(cond)
        sub = set(fn.walk(n))
        env = tuple((k, v) for k, v in st[3] if k[0] != "t" or k[1] not in sub)
        st = (st[0], st[1], st[2], env)
        p = fn.parent(n)
        while p is not None and p >= 0 and fn.kind(p) in ("paren", "cast"):
            p = fn.parent(p)
        if p is not None and p >= 0 and (fn.kind(p) == "cond" or
                                         (fn.kind(p) == "bin" and fn.pay(p) in ("&&", "||"))):
            st = self.setv(st, ("t", n), truth)
        return st

    @staticmethod
    def clean(st, keep):
        if any(k[0] != "v" and k[1] not in keep for k, v in st[3]):
            return (st[0], st[1], st[2], tuple((k, v) for k, v in st[3] if k[0] == "v" or k[1] in keep))
        return st

    # ---- solving

    def run(self, fn, init, key, blocks=None, head=None, back=None):
        """Forward over fn (or the given loop blocks); returns states at exit,
        or the states on edges back to head."""
        cfg = fn.cfg
        order = {b: i for i, b in enumerate(cfg.rpo())}
        start = head if head is not None else cfg.entry
        seen = {start: [init]}
        work = [start]
        hits, outs = [], set()
        n = 0
        while work:
            n += 1
            if n > 6000:
                raise AnalysisError("progress analysis of %s did not converge" % fn.name)
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            blk = cfg.blocks[b]
            sts = list(seen[b])
            for e in blk.elems:
                if isinstance(e, int) and e >= 0 and fn.kind(e) == "ret" and blocks is None:
                    ks = fn.kids(e)
                    for s, r in [y for s in sts for y in (self.values(fn, ks[0], s) if ks else [(s, None)])]:
                        if r == CUR or isinstance(r, tuple):
                            r = None
                        outs.add((s[0], s[1], s[2], r))
                sts = self.elem(fn, e, sts, key)
                if not sts:
                    break
            if not sts:
                continue
            for s, kind in cfg.edges(b):
                ns = self.edge(fn, blk, kind, sts, s)
                if not ns:
                    continue
                if head is not None and s == head:
                    hits += [(x, b) for x in ns]
                    continue
                if blocks is not None and s not in blocks:
                    continue
                if s == cfg.exit and blocks is None:
                    if not any(isinstance(e, int) and e >= 0 and fn.kind(e) == "ret" for e in blk.elems):
                        for x in ns:
                            outs.add((x[0], x[1], x[2], None))
                    continue
                old = seen.get(s)
                if old is None:
                    seen[s] = ns
                    work.append(s)
                else:
                    new = [x for x in ns if x not in old]
                    if new:
                        j = self.cap(old + new)
                        if set(j) != set(old):
                            # keep growing monotonically
                            seen[s] = j if len(old) + len(new) <= CAP else self.cap(j)
                            if s not in work:
                                work.append(s)
        return hits if head is not None else outs

    def squash(self, outs):
        d = {}
        for c, p, t, r in outs:
            k = (c, p if not c else False, r)
            d[k] = d.get(k, 0) | (self.U if c and t != self.EOF else t)
        return frozenset((c, p, t, r) for (c, p, r), t in d.items())

    def summary(self, k2, dep):
        self.deps.setdefault(k2, set()).add(dep)
        if k2 not in self.sums:
            self.sums[k2] = frozenset()
            self.work.append(k2)
        return self.sums[k2]

    def solve(self):
        n = 0
        while self.work:
            k = self.work.pop()
            n += 1
            if n > 60000:
                raise AnalysisError("parser summaries did not converge")
            nm, tok = k
            f = self.fns[nm]
            self.early[k] = {}
            new = self.squash(self.run(f, (False, False, tok, ()), k)) | self.sums[k]
            new = self.squash(new)
            if new != self.sums[k]:
                self.sums[k] = new
                for d in self.deps.get(k, ()):
                    if d in self.sums and d not in self.work:
                        self.work.append(d)
        return n

    def loops(self, fn):
        """Natural loops: head -> set of blocks."""
        cfg = fn.cfg
        order = {b: i for i, b in enumerate(cfg.rpo())}
        pred = {}
        for b in order:
            for s, _ in cfg.edges(b):
                pred.setdefault(s, []).append(b)
        out = {}
        for b in order:
            for s, _ in cfg.edges(b):
                if s in order and order[s] <= order[b]:
                    body = out.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body or x not in order:
                            continue
                        body.add(x)
                        stack += pred.get(x, [])
        return out
