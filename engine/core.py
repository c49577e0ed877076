"""Core program representation over the extracted facts: resolved functions,
expression trees, control-flow graphs, and generic dataflow."""
import json, os, sys, collections
from facts import AnalysisError

# node tuple layout
KIND, LINE, TYPE, MACRO, CONST, PAY, KIDS = range(7)


class Fn:
    """One function definition: nodes, variables, CFG."""
    __slots__ = ("name", "file", "line", "end", "static", "noreturn", "variadic", "ret",
                 "params", "body", "N", "vars", "types", "macros", "_cfg", "cfg_raw",
                 "_parent", "prog", "tu", "_idom", "cache", "retnonnull", "vis")

    def __init__(self, d, prog, tu):
        for k in ("name", "file", "line", "end", "static", "noreturn", "variadic",
                  "ret", "params", "body", "N", "vars", "types", "macros", "retnonnull", "vis"):
            setattr(self, k, d[k])
        self.cfg_raw = d["cfg"]
        self._cfg = None
        self._parent = None
        self._idom = None
        self.prog = prog
        self.tu = tu
        self.cache = {}

    def __repr__(self):
        return "<Fn %s %s:%d>" % (self.name, self.file, self.line)

    # ---- expression access
    def kind(self, n): return self.N[n][KIND] if n >= 0 else None
    def lineof(self, n): return self.N[n][LINE] if n >= 0 else self.line
    def type(self, n):
        t = self.N[n][TYPE]
        return self.types[t] if t >= 0 else None
    def const(self, n): return self.N[n][CONST] if n >= 0 else None
    def pay(self, n): return self.N[n][PAY]
    def kids(self, n): return self.N[n][KIDS]
    def macro(self, n):
        m = self.N[n][MACRO]
        return self.macros[m] if m >= 0 else ""

    def varname(self, v): return self.vars[v][0]
    def vartype(self, v): return self.types[self.vars[v][1]]
    def varkind(self, v): return self.vars[v][2]

    def walk(self, n=None):
        """Pre-order walk of all nodes beneath n (default: the body)."""
        if n is None:
            n = self.body
        st = [n]
        while st:
            x = st.pop()
            if x < 0:
                continue
            yield x
            st.extend(reversed(self.N[x][KIDS]))

    def parent(self, n):
        if self._parent is None:
            p = {}
            for x in self.walk():
                for k in self.N[x][KIDS]:
                    if k >= 0:
                        p.setdefault(k, x)
            self._parent = p
        return self._parent.get(n, -1)

    def calls(self, name=None, root=None):
        for n in self.walk(root):
            if self.N[n][KIND] == "call":
                c = self.N[n][PAY]
                if name is None or c == name or (not isinstance(name, str) and c in name):
                    yield n

    def callee(self, n): return self.N[n][PAY]
    def args(self, n): return self.N[n][KIDS][1:]

    def skip_casts(self, n):
        while n >= 0 and self.N[n][KIND] in ("cast", "attr"):
            n = self.N[n][KIDS][0]
        return n

    def unwrap(self, n):
        """Strip casts and __builtin_expect wrappers."""
        while n >= 0:
            k = self.N[n][KIND]
            if k == "cast":
                n = self.N[n][KIDS][0]
            elif k == "call" and self.N[n][PAY] in ("__builtin_expect", "__builtin_assume_aligned"):
                n = self.N[n][KIDS][1]
            else:
                return n
        return n

    def var_of(self, n):
        n = self.unwrap(n)
        if n >= 0 and self.N[n][KIND] == "var":
            return self.N[n][PAY]
        return None

    def txt(self, n, depth=0):
        """Normalised text of an expression (for messages and access paths)."""
        if n < 0:
            return ""
        if depth > 12:
            return "..."
        k, ln, t, m, c, p, ks = self.N[n]
        T = lambda x: self.txt(x, depth + 1)
        if k == "var": return self.vars[p][0]
        if k in ("fn", "enum"): return p
        if k == "mem": return T(ks[0]) + ("->" if p[2] else ".") + p[0]
        if k == "call": return (p or T(ks[0])) + "(" + ", ".join(T(x) for x in ks[1:]) + ")"
        if k in ("bin", "asg"): return "%s %s %s" % (T(ks[0]), p, T(ks[1]))
        if k == "un":
            if p.startswith("post"): return T(ks[0]) + p[4:]
            if p.startswith("pre"): return p[3:] + T(ks[0])
            return p + T(ks[0])
        if k == "cast": return "(%s)%s" % (self.type(n), T(ks[0]))
        if k == "lit": return str(c)
        if k == "chr": return "'\\x%02x'" % p
        if k == "flt": return repr(p)
        if k == "str": return '"%s"' % p
        if k == "idx": return "%s[%s]" % (T(ks[0]), T(ks[1]))
        if k == "cond": return "%s ? %s : %s" % tuple(T(x) for x in ks)
        if k == "elvis": return "%s ?: %s" % tuple(T(x) for x in ks)
        if k == "sizeof": return "sizeof(%s)" % self.types[p[0]]
        if k == "ret": return "return " + (T(ks[0]) if ks else "")
        if k == "complit": return T(ks[0])
        if k == "init": return "{" + ", ".join(T(x) for x in ks[:6]) + "}"
        if c is not None: return str(c)
        return k

    def path(self, n):
        """Canonical access path of an lvalue using variable ids, or None."""
        n = self.unwrap(n)
        if n < 0:
            return None
        k, ln, t, m, c, p, ks = self.N[n]
        if k == "var":
            return ("v", p)
        if k == "mem":
            b = self.path(ks[0])
            return None if b is None else ("m", b, p[0])
        if k == "un" and p == "*":
            b = self.path(ks[0])
            return None if b is None else ("d", b)
        if k == "un" and p == "&":
            b = self.path(ks[0])
            return None if b is None else ("a", b)
        if k == "idx":
            b = self.path(ks[0])
            if b is None:
                return None
            if self.const(ks[1]) is not None:
                return ("i", b, self.const(ks[1]))
            i = self.path(ks[1])
            return None if i is None else ("i", b, i)
        return None

    # ---- control flow
    @property
    def cfg(self):
        if self._cfg is None:
            if self.cfg_raw is None:
                raise AnalysisError("no CFG for %s" % self.name)
            self._cfg = CFG(self)
        return self._cfg

    def loc(self, n):
        return "%s:%d" % (self.file, self.lineof(n) if n is not None and n >= 0 else self.line)


class Block:
    __slots__ = ("id", "elems", "term", "cond", "succs", "label", "noret", "preds")


class CFG:
    """succs: list of (block id or None).  For an if/while/&&/?: terminator the
    first successor is the true edge.  For a switch, successors are the case
    blocks (each with a label node), the last one the default/exit."""

    def __init__(self, fn):
        raw = fn.cfg_raw
        self.fn = fn
        self.entry = raw["entry"]
        self.exit = raw["exit"]
        self.blocks = {}
        for b in raw["blocks"]:
            o = Block()
            o.id, o.elems, o.term, o.cond, o.succs, o.label, o.noret = b
            o.preds = []
            # a short-circuit condition is split over several blocks; the last
            # of them only decides the rightmost operand
            if o.cond is not None and o.term != "SwitchStmt":
                while True:
                    c = fn.unwrap(o.cond)
                    if c >= 0 and fn.kind(c) == "bin" and fn.pay(c) in ("&&", "||") and c not in o.elems:
                        o.cond = fn.kids(c)[1]
                    else:
                        break
            self.blocks[o.id] = o
        # blocks that end in a call the project treats as noreturn
        for o in self.blocks.values():
            if o.noret:
                o.succs = []
                continue
            for i, e in enumerate(o.elems):
                if isinstance(e, int) and fn.N[e][KIND] == "call" and fn.prog.call_noreturn(fn, e):
                    o.elems = o.elems[:i + 1]
                    o.succs = []
                    o.noret = True
                    o.cond = None
                    o.term = None
                    break
        for o in self.blocks.values():
            for s in o.succs:
                if s is not None:
                    self.blocks[s].preds.append(o.id)
        # reachability from the entry
        seen = set()
        st = [self.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st.extend(s for s in self.blocks[b].succs if s is not None)
        self.reach = seen
        self._rpo = None
        self._where = None

    def rpo(self):
        if self._rpo is None:
            seen = set()
            out = []
            st = [(self.entry, iter([s for s in self.blocks[self.entry].succs if s is not None]))]
            seen.add(self.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter([x for x in self.blocks[s].succs if x is not None])))
                        break
                else:
                    out.append(b)
                    st.pop()
            out.reverse()
            self._rpo = out
        return self._rpo

    def where(self, node):
        """(block id, index) of a node among reachable elements."""
        if self._where is None:
            w = {}
            for b in self.blocks.values():
                if b.id not in self.reach:
                    continue
                for i, e in enumerate(b.elems):
                    if isinstance(e, int):
                        w.setdefault(e, (b.id, i))
            self._where = w
        return self._where.get(node)

    def edges(self, b):
        """[(succ, kind)] with kind True/False for two-way branches,
        ('case', [consts], [excluded]) for switches, None otherwise."""
        o = self.blocks[b]
        fn = self.fn
        if o.term == "SwitchStmt":
            allc = []
            res = []
            for s in o.succs:
                if s is None:
                    continue
                lab = self.blocks[s].label
                if lab is not None and fn.kind(lab) == "case":
                    ks = fn.kids(lab)
                    lo = fn.const(ks[0])
                    hi = fn.const(ks[1]) if ks[1] >= 0 else lo
                    cs = list(range(lo, hi + 1)) if hi - lo < 4096 else [lo, hi]
                    allc.extend(cs)
                    res.append([s, ("case", cs)])
                else:
                    res.append([s, None])
            out = []
            for s, k in res:
                out.append((s, k if k else ("notcase", allc)))
            return out
        if len(o.succs) == 2 and o.cond is not None:
            out = []
            if o.succs[0] is not None:
                out.append((o.succs[0], True))
            if o.succs[1] is not None:
                out.append((o.succs[1], False))
            return out
        return [(s, None) for s in o.succs if s is not None]

    def dominators(self):
        """Immediate dominators over reachable blocks."""
        fn = self.fn
        if fn._idom is not None:
            return fn._idom
        rpo = self.rpo()
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in self.blocks[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        fn._idom = idom
        return idom

    def dominates(self, a, b):
        idom = self.dominators()
        while True:
            if a == b:
                return True
            if b not in idom or idom[b] == b:
                return False
            b = idom[b]


class Program:
    def __init__(self, files):
        """files: {source: jsonl path}"""
        self.fns = []
        self.by_name = collections.defaultdict(list)
        self.globals = collections.defaultdict(list)
        self.enums = {}          # name -> [(const, value)]
        self.enum_const = {}     # const -> value
        self.enum_of = {}        # const -> enum name
        self.records = {}
        self.tu_records = collections.defaultdict(dict)   # source -> name -> record
        self.typedefs = {}
        self.decls = {}
        self.noreturn = set()
        self.tus = sorted(files)
        seen = set()
        for tu in self.tus:
            for line in open(files[tu], errors="replace"):
                d = json.loads(line)
                k = d["k"]
                if k == "fn":
                    key = (d["name"], d["file"], d["line"])
                    if d["noreturn"]:
                        self.noreturn.add(d["name"])
                    if key in seen:
                        continue
                    seen.add(key)
                    f = Fn(d, self, tu)
                    self.fns.append(f)
                    self.by_name[f.name].append(f)
                elif k == "decl":
                    if d.get("noreturn"):
                        self.noreturn.add(d["name"])
                    if "file" in d:
                        self.decls.setdefault(d["name"], d)
                elif k == "var":
                    key = (d["name"], d["file"], d["line"], "v")
                    if key in seen:
                        continue
                    seen.add(key)
                    d["tu"] = tu
                    self.globals[d["name"]].append(d)
                elif k == "enum":
                    if d["name"]:
                        self.enums.setdefault(d["name"], d["consts"])
                    for c, v in d["consts"]:
                        self.enum_const.setdefault(c, v)
                        self.enum_of.setdefault(c, d["name"])
                elif k == "record":
                    self.records.setdefault(d["name"], d)
                    self.tu_records[tu][d["name"]] = d
                elif k == "typedef":
                    self.typedefs.setdefault(d["name"], d)
        self._callers = None
        self._fnrefs = None

    # ---- lookups
    def fn(self, name, file=None):
        """The unique definition of `name` (optionally in `file`)."""
        c = self.by_name.get(name, [])
        if file:
            c = [f for f in c if f.file == file]
        if len(c) != 1:
            raise AnalysisError("expected exactly one definition of %s%s, found %d"
                                % (name, " in " + file if file else "", len(c)))
        return c[0]

    def find(self, name, ctx=None):
        """Definition a call to `name` from function ctx resolves to, or None."""
        c = self.by_name.get(name)
        if not c:
            return None
        if len(c) == 1:
            return c[0]
        if ctx is not None:
            for f in c:
                if f.tu == ctx.tu:
                    return f
        nonstatic = [f for f in c if not f.static]
        return nonstatic[0] if len(nonstatic) == 1 else None

    def callee(self, fn, n):
        name = fn.callee(n)
        return self.find(name, fn) if name else None

    def in_file(self, file):
        return [f for f in self.fns if f.file == file]

    def call_noreturn(self, fn, n):
        name = fn.callee(n)
        if name in self.noreturn:
            return True
        if name == "jit_msg":
            # severity DIAG_FATAL aborts the current thread of execution
            a = fn.args(n)
            if len(a) >= 2:
                s = fn.skip_casts(a[1])
                if fn.kind(s) == "enum" and fn.pay(s) == "DIAG_FATAL":
                    return True
        return False

    def global_(self, name, file=None):
        c = [g for g in self.globals.get(name, []) if g["init"] >= 0]
        if file:
            c = [g for g in c if g["file"] == file]
        if len(c) != 1:
            raise AnalysisError("expected exactly one initialised global %s, found %d" % (name, len(c)))
        return GVar(c[0], self)

    def enum_name(self, enum, value):
        for c, v in self.enums[enum]:
            if v == value:
                return c
        return str(value)

    def callers(self, name):
        if self._callers is None:
            m = collections.defaultdict(list)
            for f in self.fns:
                for n in f.calls():
                    c = f.callee(n)
                    if c:
                        m[c].append((f, n))
            self._callers = m
        return self._callers.get(name, [])

    def fn_refs(self):
        """{function name: [(fn or global, node)]} for address-taken uses."""
        if self._fnrefs is None:
            m = collections.defaultdict(list)
            for f in self.fns:
                callee_nodes = {f.kids(n)[0] for n in f.calls()}
                for n in f.walk():
                    if f.kind(n) == "fn" and n not in callee_nodes:
                        m[f.pay(n)].append((f, n))
            for lst in self.globals.values():
                for g in lst:
                    for i, nd in enumerate(g["N"]):
                        if nd[KIND] == "fn":
                            m[nd[PAY]].append((g, i))
            self._fnrefs = m
        return self._fnrefs


class GVar(Fn):
    """A global variable with an initialiser, with Fn-style node access."""
    def __init__(self, d, prog):
        self.name, self.file, self.line = d["name"], d["file"], d["line"]
        self.N, self.vars, self.types, self.macros = d["N"], d["vars"], d["types"], d["macros"]
        self.body = d["init"]
        self.prog = prog
        self.tu = d["tu"]
        self._parent = None
        self.cache = {}


# ---------------------------------------------------------------- dataflow

def forward(fn, init, transfer, edge, join, max_iter=20000):
    """Generic forward worklist.  transfer(state, elem, block, idx)->state,
    edge(state, block, succ, kind)->state or None (infeasible), join(a,b).
    Returns {block: state at entry}."""
    cfg = fn.cfg
    order = {b: i for i, b in enumerate(cfg.rpo())}
    instate = {cfg.entry: init}
    import heapq
    wl = [order[cfg.entry]]
    rev = cfg.rpo()
    inwl = {cfg.entry}
    it = 0
    while wl:
        b = rev[heapq.heappop(wl)]
        inwl.discard(b)
        it += 1
        if it > max_iter:
            raise AnalysisError("dataflow did not converge in %s" % fn.name)
        st = instate[b]
        blk = cfg.blocks[b]
        for i, e in enumerate(blk.elems):
            st = transfer(st, e, b, i)
            if st is None:
                break
        if st is None:
            continue
        for s, kind in cfg.edges(b):
            ns = edge(st, b, s, kind) if edge else st
            if ns is None:
                continue
            if s in instate:
                j = join(instate[s], ns)
                if j == instate[s]:
                    continue
                instate[s] = j
            else:
                instate[s] = ns
            if s not in inwl:
                inwl.add(s)
                heapq.heappush(wl, order[s])
    return instate


def atoms(fn, cond, val):
    """Decompose a (possibly !, ==NULL, !=0) branch condition into a list of
    (node, truth) facts known to hold on the edge."""
    out = []
    def rec(n, v):
        n = fn.unwrap(n)
        if n < 0:
            return
        k = fn.kind(n)
        if k == "un" and fn.pay(n) == "!":
            return rec(fn.kids(n)[0], not v)
        if k == "bin" and fn.pay(n) in ("&&", "||"):
            # CFG splits these; only a definite side is informative
            if (fn.pay(n) == "&&") == v:
                rec(fn.kids(n)[0], v)
                rec(fn.kids(n)[1], v)
            return
        if k == "asg" and fn.pay(n) == "=":
            out.append((n, v))
            rec(fn.kids(n)[0], v)
            return
        if k == "bin" and fn.pay(n) in ("==", "!="):
            a, b = fn.kids(n)
            for x, y in ((a, b), (b, a)):
                if fn.const(y) == 0 and fn.const(x) is None or is_null(fn, y):
                    truth = v if fn.pay(n) == "!=" else not v
                    rec(x, truth)
                    out.append((n, v))
                    return
        out.append((n, v))
    rec(cond, val)
    return out


def is_null(fn, n):
    n = fn.unwrap(n)
    return n >= 0 and fn.const(n) == 0 or (n >= 0 and fn.kind(n) == "cast" and is_null(fn, fn.kids(n)[0]))
