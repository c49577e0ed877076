"""Does every path on which a check refuses its subject report an error?"""
import core
from balance import unwrap

REPORT = {"error_at", "fatal_at", "diag_emit"}


class Silent:
    """`false => reported' for boolean checkers, as a greatest fixpoint.

    A state is (reported, F, T): an error has been reported on this path (or a
    fact is known that only an earlier, reported error explains); the boolean
    locals whose falsity (F) or truth (T) implies the same."""

    def __init__(self, prog, fns, excuse, reporters=(), warn=()):
        self.prog, self.excuse = prog, excuse
        self.fns = fns
        self.reporters = set(REPORT) | set(reporters)
        self.quiet = {}
        self.cand = {f for f in fns if f.cfg_raw is not None and self.kind(f)}
        self.bad = {}
        self.refs = {}
        for f in self.cand:
            for c in f.calls():
                g = prog.callee(f, c)
                if g in self.cand:
                    self.refs.setdefault(g, set()).add(f)

        self.always = set()

    def always_reports(self, fns):
        """Helpers that report an error on every path."""
        pool = [f for f in fns if f.cfg_raw is not None and len(f.N) < 400]
        grow = True
        while grow:
            grow = False
            for f in pool:
                if f in self.always or not any(f.callee(c) in self.reporters or self.prog.callee(f, c) in self.always
                                               for c in f.calls()):
                    continue

                def transfer(st, e, b, i):
                    if st is True:
                        return st
                    if not isinstance(e, (list, tuple)) and f.kind(e) == "call":
                        if f.callee(e) in self.reporters and not self.weak(f, e) or \
                                self.prog.callee(f, e) in self.always:
                            return True
                        if self.prog.call_noreturn(f, e):
                            return None
                    return st
                ins = core.forward(f, False, transfer, None, lambda a, b: a and b)
                if ins.get(f.cfg.exit, False):
                    self.always.add(f)
                    grow = True

    @staticmethod
    def kind(f):
        if f.ret in ("bool", "_Bool"):
            return "bool"
        return "ptr" if f.ret.endswith("*") or f.ret in ("tree_t", "type_t", "vlog_node_t", "psl_node_t") else None

    def solve(self, keep=()):
        """Drop from cand whatever can refuse silently (except keep), to a
        fixpoint; bad maps every refuted function to its silent returns."""
        work = sorted(self.cand, key=lambda f: (f.file, f.line))
        while work:
            f = work.pop()
            o = self.run(f)
            if o:
                self.bad[f] = o
                if f in self.cand and f not in keep:
                    self.cand.discard(f)
                    for g in self.refs.get(f, ()):
                        if g not in work:
                            work.append(g)
            else:
                self.bad.pop(f, None)

    def checker(self, f, n):
        c = self.prog.callee(f, n)
        if c is None or c not in self.cand:
            return False
        q = self.quiet.get(c.name)
        return q is None or not core.is_null(f, f.args(n)[q])

    # does the truth / falsity of expression n imply that an error was reported
    def implies(self, f, n, val, st):
        n = unwrap(f, n)
        if n < 0:
            return False
        rep, F, T = st
        if rep:
            return True
        c = f.const(n)
        k = f.kind(n)
        if c is not None and k != "call":
            return bool(c) != val
        if k == "un" and f.pay(n) == "!":
            return self.implies(f, f.kids(n)[0], not val, st)
        if k == "bin" and f.pay(n) in ("&&", "||"):
            a, b = (self.implies(f, x, val, st) for x in f.kids(n))
            return (a or b) if (f.pay(n) == "&&") == val else (a and b)
        if k == "asg":
            if f.pay(n) == "=":
                return self.implies(f, f.kids(n)[1], val, st)
            if f.pay(n) == "&=" and not val:
                return all(self.implies(f, x, val, st) for x in f.kids(n))
        if k == "bin" and f.pay(n) == "&" and not val:
            return all(self.implies(f, x, val, st) for x in f.kids(n))
        if k == "cond":
            q, a, b = f.kids(n)
            A = self.implies(f, a, val, st) or self.implies(f, q, True, st)
            B = self.implies(f, b, val, st) or self.implies(f, q, False, st)
            return A and B
        if k == "var" and f.pay(n) in (T if val else F):
            return True
        if k == "bin" and f.pay(n) in ("==", "!="):
            a, b = f.kids(n)
            for x, y in ((a, b), (b, a)):
                if core.is_null(f, y) or f.const(y) == 0 and f.const(x) is None:
                    if self.implies(f, x, val == (f.pay(n) == "!="), st):
                        return True
        if k == "elvis":
            return not val and self.implies(f, f.kids(n)[1], False, st)
        if k == "call" and not val and self.checker(f, n):
            return True
        return self.excuse(self, f, n, val)

    def elem(self, f, e, st):
        rep, F, T = st
        if isinstance(e, (list, tuple)):
            return st
        k = f.kind(e)
        if k == "call":
            if f.callee(e) in self.reporters and not self.weak(f, e) or self.prog.callee(f, e) in self.always:
                rep = True
            st = (rep, F, T)
            # a local whose address is passed is no longer known
            for a in f.args(e):
                x = f.unwrap(a)
                if x >= 0 and f.kind(x) == "un" and f.pay(x) == "&":
                    v = f.var_of(f.kids(x)[0])
                    F, T = F - {v}, T - {v}
            return (rep, F, T)
        prs = []
        if k == "decl":
            prs = [(v, i) for v, i in f.pay(e) if i >= 0]
        elif k == "asg":
            v = f.var_of(f.kids(e)[0])
            if v is not None:
                prs = [(v, e)]
        for v, i in prs:
            if f.varkind(v) not in ("l", "p"):
                continue
            a = self.implies(f, i, False, st)
            b = self.implies(f, i, True, st)
            F = F | {v} if a else F - {v}
            T = T | {v} if b else T - {v}
        return (rep, F, T)

    def weak(self, f, e):
        """A diagnostic that may only be a warning."""
        if f.callee(e) != "diag_emit":
            return False
        v = f.var_of(f.args(e)[0])
        if v is None:
            return False
        src = []
        for n in f.walk():
            i = None
            if f.kind(n) == "decl":
                i = [x for w, x in f.pay(n) if w == v and x >= 0]
            elif f.kind(n) == "asg" and f.var_of(f.kids(n)[0]) == v:
                i = [f.kids(n)[1]]
            for x in i or ():
                x = unwrap(f, x)
                src.append(x >= 0 and f.kind(x) == "call" and f.callee(x) == "diag_new"
                           and (f.const(f.args(x)[0]) or 0) >= self.prog.enums_value("DIAG_ERROR")
                           or x >= 0 and f.kind(x) == "call" and f.callee(x) == "_pedantic_diag")
        return not src or not all(src)

    def run(self, f):
        def transfer(st, e, b, i):
            st = self.elem(f, e, st)
            if not isinstance(e, (list, tuple)) and f.kind(e) == "call" and self.prog.call_noreturn(f, e):
                return None
            return st

        def edge(st, b, s, kind):
            return self.edge(f, st, b, kind)
        ins = core.forward(f, (False, frozenset(), frozenset()), transfer, edge, self.meet)
        out = []
        for b, st in ins.items():
            for i, e in enumerate(f.cfg.blocks[b].elems):
                if not isinstance(e, (list, tuple)) and f.kind(e) == "ret":
                    ks = f.kids(e)
                    if ks and not self.implies(f, ks[0], False, st):
                        out.append(e)
                st = transfer(st, e, b, i)
                if st is None:
                    break
        return out

    def edge(self, f, st, b, kind):
        blk = f.cfg.blocks[b]
        if kind is True or kind is False:
            if blk.cond is not None and blk.cond >= 0:
                if self.implies(f, blk.cond, kind, st):
                    return (True, st[1], st[2])
                # a value known to be set cannot be the one that is missing
                F, T = set(st[1]), set(st[2])
                for n, v in core.atoms(f, blk.cond, kind):
                    w = f.var_of(n)
                    if w is not None and f.varkind(w) in ("l", "p"):
                        (F if v else T).add(w)
                st = (st[0], frozenset(F), frozenset(T))
        elif isinstance(kind, tuple) and blk.cond is not None and blk.cond >= 0:
            if self.excuse_case(f, blk.cond, kind):
                return (True, st[1], st[2])
        return st

    @staticmethod
    def meet(a, b):
        if a[0] and not b[0]:
            return b
        if b[0] and not a[0]:
            return a
        return (a[0], a[1] & b[1], a[2] & b[2])

    def excuse_case(self, f, cond, kind):
        return False

    def before_or_after(self, f, node):
        """Every path through node reports an error before or after it."""
        seen = [None]

        def transfer(st, e, b, i):
            if e == node:
                seen[0] = st if seen[0] is None else self.meet(seen[0], st)
            st = self.elem(f, e, st)
            if not isinstance(e, (list, tuple)) and f.kind(e) == "call" and self.prog.call_noreturn(f, e):
                return None
            return st

        def edge(st, b, s, kind):
            return self.edge(f, st, b, kind)
        core.forward(f, (False, frozenset(), frozenset()), transfer, edge, self.meet)
        if seen[0] is None or seen[0][0]:
            return True
        # not before: then on every way out of the function
        b0, i0 = f.cfg.where(node)
        st = seen[0]
        for e in f.cfg.blocks[b0].elems[i0:]:
            st = transfer(st, e, b0, 0)
            if st is None:
                return True
        ins, wl, ok = {}, [(b0, st)], True
        first = True
        while wl:
            b, st = wl.pop()
            if not first:
                for e in f.cfg.blocks[b].elems:
                    st = transfer(st, e, b, 0)
                    if st is None or st[0]:
                        break
            first = False
            if st is None or st[0]:
                continue
            if b == f.cfg.exit:
                return False
            for s, kind in f.cfg.edges(b):
                ns = edge(st, b, s, kind)
                if ns is None or ns[0]:
                    continue
                if s in ins:
                    j = self.meet(ins[s], ns)
                    if j == ins[s]:
                        continue
                    ns = j
                ins[s] = ns
                wl.append((s, ns))
        return True

    def reporting(self, fns):
        """The functions that, directly or through each other, report errors."""
        pool = {f for f in fns if f in self.cand}
        out = set()
        grow = True
        while grow:
            grow = False
            for f in pool - out:
                for c in f.calls():
                    if f.callee(c) in self.reporters or self.prog.callee(f, c) in out \
                            or self.prog.callee(f, c) in self.always:
                        out.add(f)
                        grow = True
                        break
        return out
