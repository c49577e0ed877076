"""P24: malformed source text cannot hang the parser or exhaust its stack."""
import core
import progress
from facts import AnalysisError

WANT = ["src/parse.c", "src/vlog/vlog-parse.c", "src/scan.c"]
EXPLAIN = """
Token-progress dataflow over the recursive-descent parsers.  A state is: a
token other than the end of file was consumed or not; the set of tokens that
can be next; and what is known of variables and call results holding tokens
(one_of, peek, optional, scan).  Every parsing function is summarised per set
of possible next tokens and the summaries are solved to a least fixpoint over
the whole recursive grammar.  (loop) For every loop that looks at tokens no
path returns to the loop head without having consumed a token: the end of file
is never consumed, so a loop that can go round at end of file is reported.
(recursion) No cycle of calls can be closed without a token consumed on it.
(primitive) The token primitives themselves do what the analysis assumes.
"""
ASSUME = [
    "a precedence-climbing loop (its condition compares two integers besides looking at the token, and its body calls "
    "the enclosing function) consumes a token in that call, because the callee's own loop condition holds on entry",
    "recursion guarded by a predicate on a type descends a finite type structure",
    "the flex scanners return the end-of-file token for ever once the input is exhausted",
]

FILES = [("src/parse.c", None, 60), ("src/vlog/vlog-parse.c", None, 45),
         ("src/scan.c", {"pp_yylex": "lex"}, 1)]


def sccs(g):
    idx, low, st, on, res = {}, {}, [], set(), []
    for root in list(g):
        if root in idx:
            continue
        work = [(root, iter(g.get(root, ())))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g.get(v, ()):
                        res.append(c)
    return res


def site_block(fn, n):
    for b in fn.cfg.rpo():
        if n in fn.cfg.blocks[b].elems:
            return b
    return None


def type_guarded(fn, n):
    """Is call n only reached on one outcome of a predicate on a type?"""
    cfg = fn.cfg
    target = site_block(fn, n)
    if target is None:
        return False
    sets = {}
    for x in fn.walk():
        if fn.kind(x) == "decl":
            for v, init in fn.pay(x):
                if init >= 0:
                    sets.setdefault(v, []).append(init)
        elif fn.kind(x) == "asg" and fn.var_of(fn.kids(x)[0]) is not None:
            sets.setdefault(fn.var_of(fn.kids(x)[0]), []).append(fn.kids(x)[1])
    for b in cfg.rpo():
        c = cfg.blocks[b].cond
        if c is None or c < 0:
            continue
        es = [c] + [v for x in fn.walk(c) if fn.kind(x) == "var" for v in sets.get(fn.var_of(x), ())]
        if not any(fn.kind(x) == "call" and (fn.callee(x) or "").startswith("type_is_") for e in es for x in fn.walk(e)):
            continue
        for drop in (True, False):
            seen, work = {cfg.entry}, [cfg.entry]
            while work:
                x = work.pop()
                for s, kind in cfg.edges(x):
                    if x == b and kind is drop:
                        continue
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            if target not in seen:
                return True
    return False


def climbing(fn, body, head):
    """The loop's condition compares two integers and its body calls fn itself."""
    cfg = fn.cfg
    rel = rec = False
    for b in body:
        blk = cfg.blocks[b]
        if blk.cond is not None and blk.cond >= 0 and any(s not in body for s, _ in cfg.edges(b)):
            for x in fn.walk(blk.cond):
                if fn.kind(x) == "bin" and fn.pay(x) in ("<", ">", "<=", ">=") and \
                        all(fn.const(k) is None for k in fn.kids(x)):
                    rel = True
        for e in blk.elems:
            if isinstance(e, int) and e >= 0 and fn.kind(e) == "call" and fn.callee(e) == fn.name:
                rec = True
    return rel and rec


def must_call(prog, fn, names):
    """Every path through fn calls one of names (or a function that must)."""
    cfg = fn.cfg
    hit = set()
    for b in cfg.rpo():
        if any(isinstance(e, int) and e >= 0 and fn.kind(e) == "call" and fn.callee(e) in names
               for e in cfg.blocks[b].elems):
            hit.add(b)
    seen, work = set(), [cfg.entry]
    while work:
        b = work.pop()
        if b in seen or b in hit:
            continue
        seen.add(b)
        if b == cfg.exit:
            return False
        work += [s for s, _ in cfg.edges(b)]
    return True


def advances(fn, field):
    """fn assigns field from itself plus one on every path."""
    cfg = fn.cfg

    def isf(n):
        n = fn.unwrap(n)
        return fn.kind(n) in ("mem", "ref", "var") and fn.txt(n).split(".")[-1].split("->")[-1] == field

    hit = set()
    for b in cfg.rpo():
        for e in cfg.blocks[b].elems:
            if not (isinstance(e, int) and e >= 0):
                continue
            if fn.kind(e) == "asg" and isf(fn.kids(e)[0]):
                r = fn.kids(e)[1]
                plus = any(fn.kind(x) == "bin" and fn.pay(x) == "+" and
                           any(isf(k) for k in fn.kids(x)) and any(fn.const(k) == 1 for k in fn.kids(x))
                           for x in fn.walk(r))
                if plus or (fn.pay(e) == "+=" and fn.const(r) == 1):
                    hit.add(b)
            if fn.kind(e) == "un" and "++" in fn.pay(e) and isf(fn.kids(e)[0]):
                hit.add(b)
    seen, work = set(), [cfg.entry]
    while work:
        b = work.pop()
        if b in seen or b in hit:
            continue
        seen.add(b)
        if b == cfg.exit:
            return False
        work += [s for s, _ in cfg.edges(b)]
    return bool(hit)


def primitives(prog, P, rep):
    f = P.fns

    def need(name, cond, msg):
        rep.check("primitive", cond, name, f[name].loc(f[name].body) if name in f else P.file, msg)

    if "drop_token" not in f:
        return
    need("drop_token", advances(f["drop_token"], "tokenq_tail"),
         "drop_token does not advance the token queue on every path")
    drop = {"drop_token"}
    for nm in ("_vexpect", "_expect", "consume", "_one_of"):
        if nm not in f:
            raise AnalysisError("token primitive %s not found in %s" % (nm, P.file))
        good = must_call(prog, f[nm], drop)
        need(nm, good, "a path through %s drops no token: callers rely on it for progress" % nm)
        drop.add(nm)
    # optional: the outcome 'true' implies a token was dropped
    fn = f["optional"]

    def step(fn, b, st):
        return st or any(isinstance(e, int) and e >= 0 and fn.kind(e) == "call" and fn.callee(e) in drop
                         for e in fn.cfg.blocks[b].elems)
    seen, work, okay = set(), [(fn.cfg.entry, False)], True
    while work:
        b, st = work.pop()
        if (b, st) in seen:
            continue
        seen.add((b, st))
        st = step(fn, b, st)
        for e in fn.cfg.blocks[b].elems:
            if isinstance(e, int) and e >= 0 and fn.kind(e) == "ret":
                c = fn.const(fn.kids(e)[0]) if fn.kids(e) else None
                x = fn.unwrap(fn.kids(e)[0]) if fn.kids(e) else -1
                if c is None and fn.kind(x) == "call" and fn.callee(x) in drop:
                    continue
                if c != 0 and not st:
                    okay = False
        work += [(s, st) for s, _ in fn.cfg.edges(b)]
    need("optional", okay, "optional can report a match without dropping the token")




def show(P, mask):
    if mask == P.U:
        return "any token"
    ks = [k for k in P.bit if (1 << P.bit[k]) & mask]
    if ks == [P.eof]:
        return "end of file"
    return "tokens %s" % ks[:6]


def run(prog, rep):
    rep.rule("loop", "no token-driven loop can go round without consuming a token (end of file is never consumed)")
    rep.rule("recursion", "no cycle of parsing functions can be closed without consuming a token")
    rep.rule("primitive", "the token primitives drop a token when the analysis says they do")
    total = 0
    for file, names, least in FILES:
        P = progress.Parser(prog, file, names=names)
        primitives(prog, P, rep)
        todo = []
        for nm in sorted(P.tokfns):
            if nm in P.NAMES:
                continue
            P.summary((nm, P.U), ("top", 0))
        P.solve()
        nl = 0
        for nm in sorted(P.tokfns):
            if nm in P.NAMES:
                continue
            f = P.fns[nm]
            for h, body in P.loops(f).items():
                if not any(isinstance(e, int) and e >= 0 and f.kind(e) == "call" and f.callee(e) in P.tokfns
                           for b in body for e in f.cfg.blocks[b].elems):
                    continue
                nl += 1
                # iterations that consume nothing, until none is left
                bad, seen = [(False, False, P.U, ())], set()
                for _ in range(8):
                    nxt = []
                    for init in bad:
                        for _ in range(8):
                            hits = P.run(f, init, ("loop", nm), body, h)
                            if not P.work:
                                break
                            P.solve()
                        nxt += [x for x, b in hits if not x[0] and not x[1] and x not in nxt]
                    bad = P.cap(nxt)
                    if not bad or set(bad) <= seen:
                        break
                    seen |= set(bad)
                c = f.cfg.blocks[h].cond
                loc = f.loc(c) if c is not None and c >= 0 else f.loc(f.body)
                if bad and climbing(f, body, h):
                    rep.count("precedence-climbing loops accepted", 1)
                    bad = []
                m = 0
                for x in bad:
                    m |= x[2]
                rep.check("loop", not bad, nm, loc,
                          "loop in %s can repeat without consuming a token (next token: %s)" % (nm, show(P, m)))
        if nl < least:
            raise AnalysisError("only %d token-driven loops found in %s" % (nl, file))
        total += nl
        g = {k: set(v) for k, v in P.early.items() if k in P.sums}
        for c in sccs(g):
            # edges under a type predicate descend the structure of a type
            cs = set(c)
            h = {}
            for k in c:
                h[k] = {w for w, (fn, n) in P.early[k].items() if w in cs and not type_guarded(fn, n)}
            for d in sccs(h):
                d = sorted(d)
                fn, n = next(P.early[k][w] for k in d for w in h[k] if w in d)
                names_ = sorted({k[0] for k in d})
                rep.bad("recursion", "/".join(names_), fn.loc(n),
                        "%s can call each other for ever without consuming a token (next token: %s)"
                        % (", ".join(names_), show(P, d[0][1])))
        for nm in P.tokfns:
            if nm not in P.NAMES:
                rep.ok("recursion", P.fns[nm].loc(P.fns[nm].body))
        rep.count("parsing functions summarised in %s" % file, len(P.tokfns))
        rep.count("summaries in %s" % file, len(P.sums))
    rep.require("loop", 110)
    rep.require("recursion", 400)
    rep.require("primitive", 12)
