"""Work that must not be done on erroneous input happens behind a gate."""
import core


class Gate:
    """Dataflow over `an error may have been reported since the last test of
    the error count'.  A target (a call that commits to the input being good)
    needs the count to have been tested since the last call that can report."""

    def __init__(self, prog, producers, targets, within, ignore=()):
        self.prog, self.targets, self.within = prog, dict(targets), within
        self.ignore = ignore
        self.prod = self.closure(producers)
        self.needs = {}

    def closure(self, direct):
        prog = self.prog
        callers = {}
        for f in prog.fns:
            for c in f.calls():
                g = prog.callee(f, c)
                if g is not None:
                    callers.setdefault(g, set()).add(f)
                # a function handed to another one runs inside it
                for a in f.args(c):
                    x = f.unwrap(a)
                    if x >= 0 and f.kind(x) == "un" and f.pay(x) == "&":
                        x = f.unwrap(f.kids(x)[0])
                    if x >= 0 and f.kind(x) == "fn":
                        h = prog.find(f.pay(x), f)
                        if h is not None:
                            callers.setdefault(h, set()).add(f)
        out = {f for f in prog.fns if direct(f)}
        work = list(out)
        while work:
            g = work.pop()
            for f in callers.get(g, ()):
                if f not in out:
                    out.add(f)
                    work.append(f)
        return out

    def produces(self, f, c):
        n = f.callee(c)
        if n in self.ignore:
            return False
        g = self.prog.callee(f, c)
        if g is not None and g in self.prod:
            return True
        for a in f.args(c):
            x = f.unwrap(a)
            if x >= 0 and f.kind(x) == "un" and f.pay(x) == "&":
                x = f.unwrap(f.kids(x)[0])
            if x >= 0 and f.kind(x) == "fn":
                h = self.prog.find(f.pay(x), f)
                if h is not None and h in self.prod:
                    return True
        return False

    def clean_edge(self, f, cond, val, snap=None):
        """Does cond being val establish that nothing was reported?  snap: locals
        computed from the error count since the last call that can report."""
        for n, v in core.atoms(f, cond, val):
            n = f.unwrap(n)
            if n < 0:
                continue
            w = f.var_of(n)
            if w is not None and snap and w in snap and len(self.defs(f, w)) == 1:
                if self.clean_edge(f, self.defs(f, w)[0], v, snap):
                    return True
                if self.counts(f, self.defs(f, w)[0]) and not v:
                    return True
            if f.kind(n) == "call" and f.callee(n) == "error_count" and not v:
                return True
            if f.kind(n) == "bin" and f.pay(n) in ("==", "!=", ">", "<", "<=", ">="):
                a, b = (f.unwrap(x) for x in f.kids(n))
                op = f.pay(n)
                for x in (a, b):
                    w = f.var_of(x)
                    if w is not None and snap and w in snap and len(self.defs(f, w)) == 1:
                        d = self.defs(f, w)[0]
                        if x == a and self.counts(f, d):
                            a = f.unwrap(d)
                        elif x == b and self.counts(f, d):
                            b = f.unwrap(d)
                if self.counts(f, b) and not self.counts(f, a):
                    a, b = b, a
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if not self.counts(f, a):
                    continue
                if not self.plain(f, b):
                    if f.const(b) == 1 and (op == "<" and v or op == ">=" and not v):
                        return True
                    continue
                if (op == "==" and v) or (op in ("!=", ">") and not v) or (op == "<=" and v):
                    return True
        return False

    def plain(self, f, n):
        """Zero, or exactly the error count taken earlier."""
        n = f.unwrap(n)
        if f.const(n) is not None:
            return f.const(n) == 0
        w = f.var_of(n)
        if w is None:
            return f.kind(n) not in ("bin", "un", "cond")
        d = self.defs(f, w)
        return all(self.counts(f, x) or f.const(x) == 0 or f.kind(f.unwrap(x)) in ("var", "mem") for x in d)

    def counts(self, f, n):
        n = f.unwrap(n)
        if n >= 0 and f.kind(n) == "call" and f.callee(n) == "error_count":
            return True
        return False

    def defs(self, f, v):
        d = f.cache.get(("gate-defs", v))
        if d is None:
            d = []
            for n in f.walk():
                if f.kind(n) == "decl":
                    d += [i for w, i in f.pay(n) if w == v and i >= 0]
                elif f.kind(n) == "asg" and f.var_of(f.kids(n)[0]) == v:
                    d.append(f.kids(n)[1] if f.pay(n) == "=" else n)
                elif f.kind(n) == "un" and f.pay(n) not in ("*", "!", "-", "~", "+") and f.var_of(f.kids(n)[0]) == v:
                    d.append(n)
            f.cache[("gate-defs", v)] = d
        return d

    def snapshot(self, f, e, st):
        """Locals that now hold something computed from the error count."""
        prs = []
        if isinstance(e, (list, tuple)):
            return st
        if f.kind(e) == "decl":
            prs = [(v, i) for v, i in f.pay(e) if i >= 0]
        elif f.kind(e) == "asg" and f.pay(e) == "=":
            v = f.var_of(f.kids(e)[0])
            prs = [(v, f.kids(e)[1])] if v is not None else []
        for v, i in prs:
            if any(f.kind(x) == "call" and f.callee(x) == "error_count"
                   or f.kind(x) == "var" and f.pay(x) in st[1] for x in f.walk(i)):
                st = (st[0], st[1] | {v})
        return st

    def run(self, f, entry):
        """Targets reached dirty, given the state at entry."""
        bad = {}

        def transfer(st, e, b, i):
            if isinstance(e, (list, tuple)) or f.kind(e) != "call":
                return self.snapshot(f, e, st)
            if self.prog.call_noreturn(f, e):
                return None
            w = self.wants(f, e)
            if w and st[0] != "clean":
                bad[e] = (w, st[0])
            if self.produces(f, e):
                return (("call", e), frozenset())
            return st

        def edge(st, b, s, kind):
            blk = f.cfg.blocks[b]
            if kind in (True, False) and blk.cond is not None and blk.cond >= 0:
                if self.clean_edge(f, blk.cond, kind, st[1]):
                    return ("clean", st[1])
            return st

        def join(a, b):
            return (b[0] if a[0] == "clean" else a[0], a[1] & b[1])
        ins = core.forward(f, (entry, frozenset()), transfer, edge, join)
        ins = {b: st[0] for b, st in ins.items()}
        return bad, ins

    def wants(self, f, e):
        n = f.callee(e)
        if n in self.targets:
            return self.targets[n]
        g = self.prog.callee(f, e)
        return self.needs.get(g) if g is not None else None

    def solve(self):
        fns = [f for f in self.prog.fns if f.file in self.within and f.cfg_raw is not None]
        grow = True
        while grow:
            grow = False
            for f in fns:
                if f in self.needs or f.name in self.targets:
                    continue
                bad, _ = self.run(f, ("entry",))
                for e, (w, st) in bad.items():
                    if st == ("entry",):
                        self.needs[f] = w
                        grow = True
                        break
        out = []
        for f in fns:
            bad, _ = self.run(f, "clean")
            for e, (w, st) in sorted(bad.items()):
                out.append((f, e, w, st[1]))
        return out
