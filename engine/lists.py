"""Element-wise transfer of operand lists.

A counted loop that moves operands from one list to another is summarised by
linear index expressions in the loop variable: dst[a*i+b] = src[c*i+d].  From
these follow the order of the elements and which part of either list is
covered.  Loops of any other form are left alone.
"""
import core


def add(a, b, k=1):
    if a is None or b is None:
        return None
    out = dict(a)
    for s, v in b.items():
        out[s] = out.get(s, 0) + k * v
        if out[s] == 0:
            del out[s]
    return out


def const(a):
    """the constant value of a linear expression, or None"""
    if a is None or any(s != 1 for s in a):
        return None
    return a.get(1, 0)


def num(k):
    return {1: k} if k else {}


class Linear:
    def __init__(self, fn):
        self.fn = fn
        self.defs = {}
        for n in fn.walk():
            k = fn.kind(n)
            if k == "decl":
                for v, i in fn.pay(n):
                    self.defs.setdefault(v, []).append(i)
            elif k == "asg":
                t = fn.unwrap(fn.kids(n)[0])
                if fn.kind(t) == "var":
                    self.defs.setdefault(fn.pay(t), []).append(fn.kids(n)[1] if fn.pay(n) == "=" else -2)
            elif k == "un" and fn.pay(n) in ("pre++", "post++", "pre--", "post--", "&"):
                t = fn.unwrap(fn.kids(n)[0])
                if fn.kind(t) == "var":
                    self.defs.setdefault(fn.pay(t), []).append(-2)

    def init(self, v):
        """the only value the local ever has, or None"""
        d = [x for x in self.defs.get(v, []) if x != -1]
        if self.fn.varkind(v)[0] == "l" and len(d) == 1 and d[0] >= 0:
            return d[0]
        return None

    def __call__(self, n, env=None, depth=0):
        fn = self.fn
        if n is None or n < 0 or depth > 12:
            return None
        n = fn.skip_casts(fn.unwrap(n))
        c = fn.const(n)
        if c is not None:
            return num(c)
        k = fn.kind(n)
        if k == "var":
            v = fn.pay(n)
            if env and v in env:
                return env[v]
            d = self.init(v)
            if d is not None:
                r = self(d, env, depth + 1)
                if r is not None:
                    return r
            if fn.varkind(v)[0] in "lp":
                return {("var", v): 1}
            return None
        if k == "bin" and fn.pay(n) in ("+", "-", "*"):
            a, b = (self(x, env, depth + 1) for x in fn.kids(n))
            if a is None or b is None:
                return None
            if fn.pay(n) == "+":
                return add(a, b)
            if fn.pay(n) == "-":
                return add(a, b, -1)
            for x, y in ((a, b), (b, a)):
                if const(x) is not None:
                    return add({}, y, const(x)) if const(x) else {}
            return None
        if k == "call" and fn.callee(n) in COUNTS:
            return {("count", fn.callee(n)): 1}
        return None


COUNTS = {"vcode_count_args": "vcode_get_arg", "mir_count_args": "mir_get_arg"}
READS = {"vcode_get_arg": 1, "vcode_get_target": 1, "mir_get_arg": 2, "irgen_get_arg": 2}
COUNT_OF = {"vcode_get_arg": "vcode_count_args", "vcode_get_target": "vcode_count_args",
            "mir_get_arg": "mir_count_args", "irgen_get_arg": "mir_count_args"}


class Loop:
    """for (int i = lo; i < hi; i += step)"""
    def __init__(self, fn, n, lin):
        self.ok = False
        init, cond, inc, body = fn.kids(n)
        self.body = body
        if min(init, cond, inc, body) < 0:
            return
        start = {}
        for x in fn.walk(init):
            if fn.kind(x) == "decl":
                for v, i in fn.pay(x):
                    if i >= 0:
                        start[v] = lin(i)
            elif fn.kind(x) == "asg" and fn.pay(x) == "=":
                t = fn.unwrap(fn.kids(x)[0])
                if fn.kind(t) == "var":
                    start[fn.pay(t)] = lin(fn.kids(x)[1])
        step = {}
        for x in fn.walk(inc):
            k = fn.kind(x)
            if k == "un" and fn.pay(x) in ("pre++", "post++", "pre--", "post--"):
                t = fn.unwrap(fn.kids(x)[0])
                if fn.kind(t) == "var":
                    step[fn.pay(t)] = 1 if "++" in fn.pay(x) else -1
            elif k == "asg" and fn.pay(x) in ("+=", "-="):
                t = fn.unwrap(fn.kids(x)[0])
                c = fn.const(fn.kids(x)[1])
                if fn.kind(t) == "var" and c is not None:
                    step[fn.pay(t)] = c if fn.pay(x) == "+=" else -c
        c = fn.unwrap(cond)
        if fn.kind(c) != "bin" or fn.pay(c) not in ("<", "<=", "!="):
            return
        i = fn.skip_casts(fn.unwrap(fn.kids(c)[0]))
        if fn.kind(i) != "var" or fn.pay(i) not in step or fn.pay(i) not in start:
            return
        self.i = fn.pay(i)
        self.step = step[self.i]
        self.lo, self.hi = start[self.i], lin(fn.kids(c)[1])
        if self.step < 1 or self.lo is None or self.hi is None:
            return
        if fn.pay(c) == "<=":
            self.hi = add(self.hi, num(1))
        # nothing in the body changes the loop variables or leaves early
        for x in fn.walk(body):
            k = fn.kind(x)
            if k in ("break", "goto"):
                return
            t = -1
            if k == "asg":
                t = fn.unwrap(fn.kids(x)[0])
            elif k == "un" and fn.pay(x) in ("pre++", "post++", "pre--", "post--", "&"):
                t = fn.unwrap(fn.kids(x)[0])
            if t >= 0 and fn.kind(t) == "var" and fn.pay(t) in step:
                return
        # every loop variable as a function of i (only exact for equal steps)
        self.env = {self.i: {("var", self.i): 1}}
        for v, s in step.items():
            if v == self.i or start.get(v) is None or s % self.step:
                continue
            q = s // self.step
            e = add(start[v], {("var", self.i): q})
            self.env[v] = add(e, self.lo, -q)
        self.ok = True

    def at(self, e, when):
        """e with i replaced by its first value, or the value after the last"""
        k = e.get(("var", self.i), 0)
        r = {s: v for s, v in e.items() if s != ("var", self.i)}
        return add(r, self.lo if when == "lo" else self.hi, k)

    def coef(self, e):
        return e.get(("var", self.i), 0)


class Move:
    """one transfer: src = (kind, name, index), dst = (kind, name, index)"""
    def __init__(self, loop, site, src, dst):
        self.loop, self.site, self.src, self.dst = loop, site, src, dst


def sources(fn, e, loop, lin):
    out = []
    for x in fn.walk(e):
        if fn.kind(x) == "call" and fn.callee(x) in READS:
            a = fn.args(x)
            p = READS[fn.callee(x)]
            ix = lin(a[p], loop.env) if len(a) > p else None
            if ix is not None and loop.coef(ix):
                out.append(("get", fn.callee(x), ix))
        elif fn.kind(x) == "idx":
            b, i = (fn.skip_casts(fn.unwrap(y)) for y in fn.kids(x))
            ix = lin(i, loop.env)
            if fn.kind(b) == "var" and fn.varkind(fn.pay(b))[0] == "p" and ix is not None and loop.coef(ix):
                out.append(("param", fn.pay(b), ix))
    return out


def moves(fn):
    """[Move] of the counted loops of fn, and the Linear evaluator"""
    lin = Linear(fn)
    out = []
    for n in fn.walk():
        if fn.kind(n) != "for":
            continue
        lp = Loop(fn, n, lin)
        if not lp.ok:
            continue
        nested = {y for x in fn.walk(lp.body) if fn.kind(x) in ("for", "while", "do") for y in fn.walk(x)}
        for x in fn.walk(lp.body):
            if x in nested:
                continue
            k = fn.kind(x)
            if k == "call" and fn.callee(x) == "mir_set_arg" and len(fn.args(x)) == 4:
                s = sources(fn, fn.args(x)[3], lp, lin)
                ix = lin(fn.args(x)[2], lp.env)
                if len(s) == 1 and ix is not None:
                    out.append(Move(lp, x, s[0], ("node", None, ix)))
            elif k == "call" and fn.callee(x) == "vcode_add_arg" and len(fn.args(x)) == 2:
                s = sources(fn, fn.args(x)[1], lp, lin)
                if len(s) == 1:
                    out.append(Move(lp, x, s[0], ("append", None, {("var", lp.i): 1})))
            elif k == "call" and fn.callee(x) == "vcode_add_target" and len(fn.args(x)) == 2:
                s = sources(fn, fn.args(x)[1], lp, lin)
                if len(s) == 1:
                    out.append(Move(lp, x, s[0], ("append", None, {("var", lp.i): 1})))
            elif k == "asg" and fn.pay(x) == "=":
                t = fn.unwrap(fn.kids(x)[0])
                while fn.kind(t) == "mem":
                    t = fn.skip_casts(fn.unwrap(fn.kids(t)[0]))
                if fn.kind(t) != "idx":
                    continue
                b, i = (fn.skip_casts(fn.unwrap(y)) for y in fn.kids(t))
                ix = lin(i, lp.env)
                s = sources(fn, fn.kids(x)[1], lp, lin)
                if fn.kind(b) == "var" and fn.varkind(fn.pay(b))[0] == "l" and ix is not None and len(s) == 1:
                    out.append(Move(lp, x, s[0], ("local", fn.pay(b), ix)))
    return out, lin


def check(prog, rep, files, rule="list"):
    """rule: a list of operands is handed on whole and in order"""
    for f in files:
        mv, lin = moves(f)
        if not mv:
            continue
        fixed = {}
        for n in f.calls():
            if f.callee(n) in READS and len(f.args(n)) > READS[f.callee(n)]:
                c = f.const(f.args(n)[READS[f.callee(n)]])
                if c is not None:
                    fixed.setdefault(COUNT_OF[f.callee(n)], set()).add((f.callee(n) == "vcode_get_target", c))
        groups = {}
        for m in mv:
            lp, key = m.loop, "%s:%s" % (f.name, f.txt(m.site))
            cs, cd = lp.coef(m.src[2]), lp.coef(m.dst[2])
            rep.check(rule, cd == 0 or cs * cd > 0, key + ":order", f.loc(m.site),
                      "%s reverses the list it hands on: '%s'" % (f.name, f.txt(m.site)))
            if cs * cd <= 0:
                continue
            groups.setdefault((id(lp), m.src[0], m.src[1]), []).append(m)
            if m.dst[0] == "local":
                local(f, rep, rule, key, m, lin)
        for (_, sk, sn), ms in sorted(groups.items(), key=lambda x: x[1][0].site):
            lp = ms[0].loop
            key = "%s:%s" % (f.name, f.txt(ms[0].site))
            first = min((const(lp.at(m.src[2], "lo")) for m in ms if const(lp.at(m.src[2], "lo")) is not None), default=None)
            dense = sorted(m.src[2].get(1, 0) for m in ms)
            stride = lp.coef(ms[0].src[2]) * lp.step
            if any(lp.coef(m.src[2]) * lp.step != stride for m in ms):
                continue
            if sk == "param":
                if first is not None:
                    rep.check(rule, first == 0, key + ":first", f.loc(ms[0].site),
                              "%s hands on '%s' from element %d" % (f.name, f.varname(sn), first))
                end = lp.at(ms[0].src[2], "hi")
                if end is not None and len(ms) == 1 and len([s for s in end if s != 1]) == 1:
                    rep.check(rule, end.get(1, 0) == 0, key + ":last", f.loc(ms[0].site),
                              "%s does not hand on all of '%s'" % (f.name, f.varname(sn)))
            else:
                cnt = COUNT_OF[sn]
                tgt = sn == "vcode_get_target"
                if first is not None:
                    have = {c for t, c in fixed.get(cnt, ()) if t == tgt}
                    rep.check(rule, all(k in have for k in range(first)), key + ":first", f.loc(ms[0].site),
                              "%s hands on the operands from %d but does not read the ones before it" % (f.name, first))
                ends = [lp.at(m.src[2], "hi") for m in ms]
                if all(e is not None and e.get(("count", cnt)) == 1 and len([s for s in e if s != 1]) == 1 for e in ends):
                    top = max(e.get(1, 0) for e in ends) - stride + 1
                    if stride == 1:
                        rep.check(rule, top == 0, key + ":last", f.loc(ms[0].site),
                                  "%s does not hand on every operand" % f.name)
        node(f, rep, rule, mv, lin)


def local(f, rep, rule, key, m, lin):
    lp = m.loop
    lo, hi = lp.at(m.dst[2], "lo"), lp.at(m.dst[2], "hi")
    if const(lo) is not None:
        rep.check(rule, const(lo) == 0, key + ":base", f.loc(m.site),
                  "the first element of '%s' is never filled in %s" % (f.varname(m.dst[1]), f.name))
    for n in f.calls():
        a = f.args(n)
        name = f.callee(n)
        if not name or name in READS:
            continue
        pos = [i for i, x in enumerate(a) if f.var_of(x) == m.dst[1]]
        if not pos or hi is None:
            continue
        cnt = None
        for x in a[pos[0] + 1:]:
            x0 = f.skip_casts(f.unwrap(x))
            if f.kind(x0) == "var" and f.varkind(f.pay(x0))[0] == "l" and "*" in (f.vartype(f.pay(x0)) or "") + "":
                continue
            v = lin(x)
            if v is not None and any(s != 1 for s in v):
                cnt = v
                break
            if v is not None:
                break
        if cnt is None:
            continue
        d = const(add(cnt, hi, -1))
        if d is not None:
            rep.check(rule, d == 0, "%s:%s:count" % (key, name), f.loc(n),
                      "%s fills '%s' with one number of elements and gives %s another" % (f.name, f.varname(m.dst[1]), name))
    d = lin.init(m.dst[1])
    if d is not None and d >= 0:
        d = f.skip_casts(f.unwrap(d))
        if f.kind(d) == "call" and f.callee(d) in ("xmalloc_array", "xcalloc_array"):
            size = lin(f.args(d)[0])
            k = const(add(size, hi, -1)) if size is not None and hi is not None else None
            if k is not None:
                rep.check(rule, k >= 0, key + ":size", f.loc(m.site),
                          "'%s' in %s is allocated too small for the list put there" % (f.varname(m.dst[1]), f.name))


def node(f, rep, rule, mv, lin):
    adds = [n for n in f.calls("mir_add_node")]
    sets = [m for m in mv if m.dst[0] == "node"]
    if len(adds) != 1 or not sets:
        return
    cnt = lin(f.args(adds[0])[4])
    if cnt is None:
        return
    slack = []
    for m in sets:
        end = add(m.loop.at(m.dst[2], "hi"), num(m.loop.coef(m.dst[2]) * m.loop.step), -1)
        end = add(end, num(1))
        d = const(add(cnt, end, -1))
        if d is None:
            return
        slack.append(d)
    rep.check(rule, min(slack) == 0, "%s:operands" % f.name, f.loc(adds[0]),
              "%s makes room for a different number of operands than it sets" % f.name)
