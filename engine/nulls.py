"""Nullness: which calls can yield NULL, and whether their results are tested
before they are dereferenced.  Disjunctive forward analysis: a state is a set
of facts (access path -> zero / non-zero), calls that can return NULL split it."""
import collections
from core import is_null
from facts import AnalysisError

# library functions whose result is NULL on failure
LIBNULL = {
    "fopen", "freopen", "fdopen", "popen", "opendir", "readdir", "getenv", "secure_getenv", "strchr", "strrchr",
    "strstr", "strpbrk", "memchr", "realpath", "dlsym", "dlopen", "fgets", "bsearch", "strtok_r", "strtok", "getpwuid",
    "strcasestr", "memmem", "setlocale", "gethostbyname", "localtime", "Tcl_GetVar", "Tcl_CreateObjCommand_",
}
# library functions that dereference these arguments
LIBREQ = {
    "strlen": (0,), "strcmp": (0, 1), "strcasecmp": (0, 1), "strncmp": (0, 1), "strchr": (0,), "strrchr": (0,),
    "strstr": (0, 1), "strcpy": (0, 1), "strcat": (0, 1), "strdup": (0,), "atoi": (0,), "fprintf": (0,), "fputs": (0, 1),
    "fputc": (1,), "fgetc": (0,), "fread": (3,), "fwrite": (3,), "fclose": (0,), "fseek": (0,), "ftell": (0,),
    "fgets": (2,), "readdir": (0,), "closedir": (0,), "rewind": (0,), "feof": (0,), "ferror": (0,), "fileno": (0,),
    "strtol": (0,), "strtoll": (0,), "strtod": (0,), "strncasecmp": (0, 1), "vfprintf": (0,), "fflush_": (0,),
}
CAP = 24


class Nulls:
    def __init__(self, prog, exempt=()):
        self.prog = prog
        self.ret = {}       # fn -> set of frozenset(param idx) conditions for NULL
        self.req = {}       # fn -> set of param idx that must not be NULL
        self.cand = [f for f in prog.fns if f.cfg_raw is not None and f.file.startswith("src/")]
        self._addr = {}
        self.exempt = set(exempt)
        self.solve()

    # ---- helpers
    def addr_taken(self, f):
        s = self._addr.get(f)
        if s is None:
            s = set()
            for n in f.walk():
                if f.kind(n) == "un" and f.pay(n) == "&":
                    v = f.var_of(f.kids(n)[0])
                    if v is not None:
                        s.add(v)
            self._addr[f] = s
        return s

    @staticmethod
    def base(path):
        while path[0] != "v":
            path = path[1]
        return path[1]

    @staticmethod
    def mentions(path, v):
        if path[0] == "v":
            return path[1] == v
        if mention_idx(path, v):
            return True
        return Nulls.mentions(path[1], v)

    def heap(self, f, path):
        """Can a call change what is stored at path?"""
        if path[0] == "v":
            return f.varkind(path[1]) not in ("l", "p") or path[1] in self.addr_taken(f)
        return True

    def isptr(self, t):
        if not t:
            return False
        t = t.strip()
        if t.endswith("*"):
            return True
        td = self.prog.typedefs.get(t)
        return bool(td) and td["canon"].strip().endswith("*")

    # ---- calls that can yield NULL
    def conds(self, f, call):
        name = f.callee(call)
        if not name:
            return None
        g = self.prog.find(name, f)
        if g is None:
            return {frozenset()} if name in LIBNULL else None
        return self.ret.get(g)

    def required(self, f, call):
        name = f.callee(call)
        g = self.prog.find(name, f) if name else None
        if g is None:
            return LIBREQ.get(name, ())
        return self.req.get(g, ())

    # ---- the analysis of one function
    def run(self, f, init, report=None, want_ret=False):
        """Returns (exits reached?, null-return conditions)."""
        cfg = f.cfg
        order = cfg.rpo()
        pos = {b: i for i, b in enumerate(order)}
        IN = {cfg.entry: {init}}
        work = {cfg.entry}
        rets = set()
        reached = False
        count = collections.Counter()
        while work:
            b = min(work, key=lambda x: pos[x])
            work.discard(b)
            count[b] += 1
            if count[b] > 60:
                continue
            blk = cfg.blocks[b]
            if b == cfg.exit:
                reached = True
                continue
            outs = {}
            for st in IN[b]:
                for s2 in self.block(f, blk, st, report, rets if want_ret else None):
                    outs[s2] = 1
            for s, kind in cfg.edges(b):
                old = IN.get(s, set())
                tgt = set(old)
                for st in outs:
                    e = self.edge(f, blk, st, kind)
                    if e is not None:
                        tgt.add(e)
                if len(tgt) > CAP:
                    tgt = {frozenset.intersection(*tgt)}
                elif len(old) == 1 and len(tgt) > 1 and count[s] > CAP:
                    tgt = {frozenset.intersection(*tgt)}
                if tgt and tgt != old:
                    IN[s] = tgt
                    work.add(s)
        return reached, rets

    def block(self, f, blk, st, report, rets):
        states = [dict(st)]
        for e in blk.elems:
            if not isinstance(e, int):
                continue
            nxt = []
            for s in states:
                nxt.extend(self.elem(f, e, s, report, rets))
            states = nxt
            if len(states) > CAP:
                states = states[:CAP]
            if not states:
                break
        return [frozenset(s.items()) for s in states]

    def deref(self, f, n):
        """Path dereferenced by node n itself."""
        k = f.kind(n)
        if k == "mem" and f.pay(n)[1 if len(f.pay(n)) == 2 else 2]:
            return f.kids(n)[0]
        if k == "un" and f.pay(n) == "*":
            return f.kids(n)[0]
        if k == "idx":
            b = f.kids(n)[0]
            if "[" not in (f.type(f.unwrap(b)) or "["):
                return b
        return None

    def under_addr(self, f, n):
        """&p->x and offsetof-like address computations are not accesses."""
        p = f.parent(n)
        while p >= 0 and f.kind(p) in ("mem", "idx", "cast"):
            if f.kind(p) == "mem" and f.pay(p)[-1]:
                return False
            if f.kind(p) == "idx" and f.kids(p)[0] != n:
                return False
            n = p
            p = f.parent(p)
        return p >= 0 and f.kind(p) == "un" and f.pay(p) == "&"

    def value(self, f, n, s):
        """'N'/'Z'... the truth of expression n in state s: 0, 1, None, or
        ('call', node)."""
        n = f.unwrap(n)
        if n < 0:
            return None
        if is_null(f, n):
            return "NULL"
        k = f.kind(n)
        c = f.const(n)
        if c is not None:
            return 1 if c else "NULL"
        if k == "str" or (k == "un" and f.pay(n) == "&") or k == "fn":
            return 1
        if k == "call":
            return s.get(("c", n))
        if k == "asg" and f.pay(n) == "=":
            return self.value(f, f.kids(n)[1], s) if f.path(f.kids(n)[0]) is None else s.get(f.path(f.kids(n)[0]))
        if k == "un" and f.pay(n) == "!":
            v = self.value(f, f.kids(n)[0], s)
            return None if v is None else neg(v)
        if k == "bin" and f.pay(n) == ",":
            return self.value(f, f.kids(n)[1], s)
        if k == "bin" and f.pay(n) in ("&&", "||"):
            a, b = (self.value(f, x, s) for x in f.kids(n))
            if f.pay(n) == "&&":
                return "tested" if isnull(a) or isnull(b) else 1 if a == 1 and b == 1 else None
            return 1 if a == 1 or b == 1 else "tested" if isnull(a) and isnull(b) else None
        if k == "cond":
            c, a, b = (self.value(f, x, s) for x in f.kids(n))
            return a if c == 1 else b if isnull(c) else a if a == b else None
        if k == "bin" and f.pay(n) in ("==", "!="):
            a, b = f.kids(n)
            for x, y in ((a, b), (b, a)):
                if is_null(f, y) or f.const(y) == 0:
                    v = self.value(f, x, s)
                    if v is None:
                        break
                    return neg(v) if f.pay(n) == "==" else v
        p = f.path(n)
        if p is not None:
            return s.get(p)
        return None

    def elem(self, f, e, s, report, rets):
        N = f.N[e]
        k = N[0]
        d = self.deref(f, e)
        if d is not None and not self.under_addr(f, e):
            v = self.value(f, d, s)
            if isnull(v):
                if report:
                    report(f, e, d, v)
                return []
            p = f.path(d)
            if p is not None and v is None:
                s = dict(s)
                s[p] = 1
        if k == "call":
            a = f.args(e)
            for i in self.required(f, e):
                if i < len(a) and isnull(self.value(f, a[i], s)):
                    if report:
                        report(f, e, a[i], self.value(f, a[i], s))
                    return []
            s = {p: v for p, v in s.items() if p[0] == "c" or not self.heap(f, p) or v == 1 and p[0] == "x"}
            cs = self.conds(f, e)
            s.pop(("c", e), None)
            if cs and f.callee(e) not in self.exempt:
                for cond in cs:
                    if all(i < len(a) and self.agrees(f, a[i], s, null) for i, null in cond):
                        s0 = dict(s)
                        s0[("c", e)] = (f.callee(e), e)
                        s1 = dict(s)
                        s1[("c", e)] = 1
                        return [s0, s1]
            return [s]
        if k == "decl":
            s = dict(s)
            for v, init in N[5]:
                self.kill(s, v)
                if init is not None and init >= 0:
                    val = self.value(f, init, s)
                    if val is not None:
                        s[("v", v)] = val
            return [s]
        if k == "asg":
            lhs, rhs = N[6][0], N[6][1]
            p = f.path(lhs)
            s = dict(s)
            val = self.value(f, rhs, s) if N[5] == "=" else None
            if p is None:
                # store through an unknown path
                for q in [q for q in s if q[0] not in ("c",) and self.heap(f, q)]:
                    del s[q]
            else:
                if p[0] == "v":
                    self.kill(s, p[1])
                else:
                    last = field_of(p)
                    for q in [q for q in s if q[0] != "c" and (field_of(q) == last or has_field(q, last))]:
                        del s[q]
                if val is not None:
                    s[p] = val
            return [s]
        if k == "un" and f.pay(e) in ("pre++", "pre--", "post++", "post--"):
            p = f.path(N[6][0])
            if p is not None:
                s = dict(s)
                if p[0] == "v":
                    self.kill(s, p[1])
                else:
                    for q in [q for q in s if q[0] != "c" and has_field(q, field_of(p))]:
                        del s[q]
            return [s]
        if k == "ret":
            if rets is not None and N[6]:
                if isnull(self.value(f, N[6][0], s)):
                    nparams = {v: i for i, v in enumerate(self.params(f))}
                    cond = frozenset(
                        (nparams[p[1]], isnull(v)) for p, v in s.items()
                        if p[0] == "v" and p[1] in nparams and self.pure(f, p[1])
                        and (isnull(v) or not self.isptr(f.vartype(p[1]))))
                    rets.add(cond)
            return [s]
        if k == "bin" and f.pay(e) in ("&&", "||"):
            return [s]
        return [s]

    def agrees(self, f, n, s, null):
        v = self.value(f, n, s)
        if v is None:
            # an unknown number may be anything; pointers are assumed valid
            return not self.isptr(f.type(f.unwrap(n)))
        return isnull(v) == null

    def params(self, f):
        return [i for i, v in enumerate(f.vars) if v[2] == "p"]

    def pure(self, f, v):
        """Parameter never assigned in the function."""
        key = ("assigned",)
        s = f.cache.get(key)
        if s is None:
            s = set()
            for n in f.walk():
                if f.kind(n) == "asg" or f.kind(n) == "un" and f.pay(n) in ("pre++", "pre--", "post++", "post--", "&"):
                    x = f.var_of(f.kids(n)[0])
                    if x is not None:
                        s.add(x)
            f.cache[key] = s
        return v not in s

    def kill(self, s, v):
        for q in [q for q in s if q[0] != "c" and self.mentions(q, v)]:
            del s[q]

    def edge(self, f, blk, st, kind):
        if kind is True or kind is False:
            s = dict(st)
            ok = self.assume(f, blk.cond, kind, s, "?" if blk.term == "ConditionalOperator" else "tested")
            if not ok:
                return None
            st = frozenset((p, v) for p, v in s.items() if p[0] != "c" or self.live(f, p[1], blk))
            return st
        return frozenset((p, v) for p, v in st if p[0] != "c" or self.live(f, p[1], blk))

    def live(self, f, call, blk):
        """A call value is only needed while its full expression is evaluated."""
        p = f.parent(call)
        while p >= 0 and f.kind(p) in ("cast", "attr"):
            p = f.parent(p)
        return p >= 0 and f.kind(p) in ("cond", "elvis", "bin", "un", "call", "asg")

    def assume(self, f, n, val, s, tag="tested"):
        n = f.unwrap(n)
        if n < 0:
            return True
        k = f.kind(n)
        if k == "bin" and f.pay(n) == ",":
            return self.assume(f, f.kids(n)[1], val, s, tag)
        if k == "un" and f.pay(n) == "!":
            return self.assume(f, f.kids(n)[0], not val, s, tag)
        if k == "bin" and f.pay(n) in ("&&", "||"):
            if (f.pay(n) == "&&") == val:
                return self.assume(f, f.kids(n)[0], val, s, tag) and self.assume(f, f.kids(n)[1], val, s, tag)
            return True
        if k == "bin" and f.pay(n) in ("==", "!="):
            a, b = f.kids(n)
            for x, y in ((a, b), (b, a)):
                if is_null(f, y) or f.const(y) == 0:
                    return self.assume(f, x, val == (f.pay(n) == "!="), s, tag)
            if (f.pay(n) == "==") == val:
                for x, y in ((a, b), (b, a)):
                    if self.value(f, y, s) == 1 and f.path(x) is not None and f.const(y) != 0:
                        if isnull(s.get(f.path(x))):
                            return False
                        s[f.path(x)] = 1
            return True
        v = self.value(f, n, s)
        if v is not None:
            return (v == 1) == val
        if k == "asg" and f.pay(n) == "=":
            p = f.path(f.kids(n)[0])
            if p is not None:
                s[p] = 1 if val else tag
            return True
        p = f.path(n)
        if p is not None:
            s[p] = 1 if val else tag
        elif k == "call":
            s[("c", n)] = 1 if val else tag
        return True

    # ---- summaries
    def solve(self):
        ptr = [f for f in self.cand if self.isptr(f.ret)]
        self.ptr = set(ptr)
        # required parameters
        for rnd in range(6):
            ch = False
            for f in self.cand:
                ps = self.params(f)
                have = self.req.get(f, set())
                for i, v in enumerate(ps):
                    if i in have or not self.isptr(f.vartype(v)):
                        continue
                    if rnd and not self.dirty(f, self._lastreq):
                        continue
                    reached, _ = self.run(f, frozenset({(("v", v), "arg")}))
                    if not reached:
                        self.req.setdefault(f, set()).add(i)
                        ch = True
            self._lastreq = set(self.req)
            if not ch:
                break
        for rnd in range(6):
            ch = False
            for f in ptr:
                if rnd and not self.dirty(f, self._lastret):
                    continue
                if f.retnonnull:
                    continue
                _, rets = self.run(f, frozenset(), want_ret=True)
                # drop conditions implied by weaker ones
                rets = {c for c in rets if not any(d < c for d in rets)}
                if rets and rets != self.ret.get(f):
                    self.ret[f] = rets
                    ch = True
            self._lastret = set(self.ret)
            if not ch:
                break

    def dirty(self, f, s):
        return any(self.prog.callee(f, n) in s for n in f.calls())


def field_of(p):
    return p[2] if p[0] == "m" else p[0]


def has_field(p, fld):
    while p[0] != "v":
        if field_of(p) == fld:
            return True
        p = p[1]
    return False


def mention_idx(p, v):
    return p[0] == "i" and isinstance(p[2], tuple) and Nulls.mentions(p[2], v)


def isnull(v):
    return v is not None and v != 1


def neg(v):
    return 1 if isnull(v) else "tested"
