"""Places shared between threads: which places are read and written atomically, with which ordering, and which plainly."""
import core

ORDER = {0: "relaxed", 1: "consume", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}


def tname(t):
    t = (t or "").replace("const ", "").replace("volatile ", "").strip()
    while t.endswith("*"):
        t = t[:-1].strip()
    for p in ("struct ", "union "):
        if t.startswith(p):
            t = t[len(p):]
    return t.lstrip("_")


class Shared:
    def __init__(self, prog):
        self.prog = prog
        self.param_atomic = {}
        self.recs = {tname(r) for r in prog.records} | {k for k, v in prog.typedefs.items() if str(v).startswith(("struct", "union"))}
        self.atom = []      # (fn, node, op, order, key, ptr node)
        self.collect()

    # ---- places -----------------------------------------------------------------------------------------
    def place(self, f, e, alias=True, depth=0):
        """(key, base): key = ("f", record, path) | ("g", file or '', name) | None ; base = the node the place hangs off."""
        path = []
        elem = None
        while True:
            depth += 1
            if depth > 40:
                return None, e
            k = f.kind(e)
            if k in ("paren", "cast"):
                e = f.kids(e)[0]
            elif k == "idx":
                if path and elem is None and self.is_record(f.type(e)):
                    elem = ("f", tname(f.type(e)), ".".join(path))
                path_base = f.kids(e)[0]
                u = core.unwrap(f, path_base) if hasattr(core, "unwrap") else f.unwrap(path_base)
                if f.kind(u) == "var" and f.varkind(f.var_of(u)) in ("l", "p") and f.type(u).rstrip().endswith("*"):
                    t = self.alias(f, u) if alias else None
                    if t is not None:
                        e = t
                        continue
                    return elem, u
                e = path_base
            elif k == "mem":
                field, rec, arrow = (list(f.pay(e)) + [None, None])[:3]
                base = f.kids(e)[0]
                if field:
                    path.insert(0, field)
                if arrow:
                    if not path:
                        return elem, base
                    return elem or ("f", tname(f.type(f.unwrap(base))), ".".join(path)), base
                e = base
            elif k == "un" and f.pay(e) == "*":
                p = f.unwrap(f.kids(e)[0])
                if f.kind(p) == "un" and f.pay(p) == "&":
                    e = f.kids(p)[0]
                    continue
                if f.kind(p) == "var" and alias:
                    t = self.alias(f, p)
                    if t is not None:
                        e = t
                        continue
                if path:
                    return elem or ("f", tname(f.type(p)), ".".join(path)), p
                return ("p", f.varname(f.var_of(p))) if f.kind(p) == "var" and f.varkind(f.var_of(p)) == "p" else None, p
            elif k == "var":
                v = f.var_of(e)
                vk = f.varkind(v)
                if vk in ("l", "p", "lt", "pt"):
                    return None if not elem or not f.type(e).rstrip().endswith("*") else elem, e
                if elem:
                    return elem, e
                return ("g", f.varname(v), ".".join(path), vk), e
            else:
                return None, e

    def is_record(self, t):
        return not (t or "").rstrip().endswith("*") and tname(t) in self.recs

    def alias(self, f, u):
        """The place a once-assigned local pointer stands for."""
        v = f.var_of(u)
        m = f.cache.get("alias")
        if m is None:
            m = {}
            for n in f.walk():
                if f.kind(n) == "decl":
                    for w, init in f.pay(n):
                        if init is not None:
                            m.setdefault(w, []).append(init)
                elif f.kind(n) == "asg":
                    l = f.unwrap(f.kids(n)[0])
                    if f.kind(l) == "var":
                        m.setdefault(f.var_of(l), []).append(f.kids(n)[1] if f.pay(n) == "=" else None)
                elif f.kind(n) == "un" and f.pay(n) in ("pre++", "post++", "pre--", "post--"):
                    l = f.unwrap(f.kids(n)[0])
                    if f.kind(l) == "var":
                        m.setdefault(f.var_of(l), []).append(None)
            f.cache["alias"] = m
        d = m.get(v)
        if not d or len(d) != 1 or d[0] is None or f.varkind(v) == "p":
            return None
        e = f.unwrap(d[0])
        if f.kind(e) == "un" and f.pay(e) == "&":
            return f.kids(e)[0]
        if f.kind(e) == "bin" and f.pay(e) == "+":
            return f.kids(e)[0]
        if f.kind(e) in ("mem",) and not f.type(e).rstrip().endswith("*"):
            return e
        return None

    ALLOC = {"xcalloc", "xmalloc", "xcalloc_flex", "xmalloc_flex", "xcalloc_array", "xmalloc_array", "map_huge_pages",
             "pool_malloc", "pool_calloc", "mir_global_malloc"}

    def fresh(self, f, e):
        """e is a local that only ever holds an object allocated in this function."""
        e = f.unwrap(e)
        while f.kind(e) in ("paren", "cast"):
            e = f.unwrap(f.kids(e)[0])
        if f.kind(e) == "mem" and not f.pay(e)[2] or f.kind(e) == "idx" or f.kind(e) == "un" and f.pay(e) in ("&", "*"):
            return self.fresh(f, f.kids(e)[0])
        if f.kind(e) != "var" or f.varkind(f.var_of(e)) != "l":
            return False
        self.alias(f, e)
        d = f.cache["alias"].get(f.var_of(e))
        if not d or any(x is None for x in d):
            return False
        for x in d:
            x = f.unwrap(x)
            while f.kind(x) in ("paren", "cast"):
                x = f.unwrap(f.kids(x)[0])
            if f.kind(x) == "call" and (f.callee(x) in self.ALLOC or self.allocates(f, x)):
                continue
            if f.kind(x) in ("zero", "lit", "init"):
                continue
            return False
        return True

    def allocates(self, f, c):
        g = self.prog.callee(f, c)
        if g is None or not g.ret.rstrip().endswith("*"):
            return False
        m = self.__dict__.setdefault("_allocs", {})
        if g in m:
            return m[g]
        m[g] = False
        rets = [n for n in g.walk() if g.kind(n) == "ret" and g.kids(n)]
        m[g] = bool(rets) and all(self.fresh(g, g.kids(n)[0]) for n in rets)
        return m[g]

    def fresh_at(self, f, e, n):
        """Every assignment of the local at the bottom of e that reaches n is an allocation."""
        e = f.unwrap(e)
        while f.kind(e) in ("paren", "cast", "idx") or f.kind(e) == "mem" and not f.pay(e)[2] \
                or f.kind(e) == "un" and f.pay(e) in ("&", "*"):
            e = f.unwrap(f.kids(e)[0])
        if f.kind(e) != "var" or f.varkind(f.var_of(e)) != "l":
            return False
        if self.fresh(f, e):
            return True
        v = f.var_of(e)
        m = f.cache.setdefault("fresh_at", {})
        if v not in m:
            m[v] = self.reach(f, v)
        at = m[v]
        while n >= 0:
            if n in at:
                return at[n]
            n = f.parent(n)
        return False

    def is_alloc(self, f, x):
        x = f.unwrap(x)
        while f.kind(x) in ("paren", "cast"):
            x = f.unwrap(f.kids(x)[0])
        return f.kind(x) == "call" and (f.callee(x) in self.ALLOC or self.allocates(f, x))

    def reach(self, f, v):
        at = {}

        def transfer(st, e, b, i):
            if not isinstance(e, int):
                return st
            at[e] = at.get(e, True) and st
            if f.kind(e) == "decl":
                for w, init in f.pay(e):
                    if w == v:
                        st = init is not None and self.is_alloc(f, init)
            elif f.kind(e) == "asg":
                l = f.unwrap(f.kids(e)[0])
                if f.kind(l) == "var" and f.var_of(l) == v:
                    st = f.pay(e) == "=" and self.is_alloc(f, f.kids(e)[1])
            return st
        core.forward(f, False, transfer, None, lambda a, b: a and b)
        return at

    # ---- collection ---------------------------------------------------------------------------------------
    def collect(self):
        for f in self.prog.fns:
            for n in f.walk():
                if f.kind(n) != "atomic":
                    continue
                op = f.pay(n)
                op = op[0] if isinstance(op, list) else op
                ks = f.kids(n)
                if "fence" in op or not ks:
                    continue
                p = f.unwrap(ks[0])
                if f.kind(p) == "un" and f.pay(p) == "&":
                    key, base = self.place(f, f.kids(p)[0])
                elif f.kind(p) == "var":
                    t = self.alias(f, p)
                    if t is not None:
                        key, base = self.place(f, t)
                    elif f.varkind(f.var_of(p)) == "p":
                        key, base = ("p", f.varname(f.var_of(p))), p
                        self.param_atomic.setdefault(f, set()).add(f.var_of(p))
                    else:
                        key, base = None, p
                else:
                    key, base = None, p
                order = f.const(ks[1])
                self.atom.append((f, n, op, order, key, base))

    # ---- plain accesses -------------------------------------------------------------------------------------
    def gkey(self, f, key):
        if key and key[0] == "g":
            vk = key[3]
            return ("g", f.name if vk == "s" else f.file if vk.startswith("gs") else "", key[1], key[2])
        return key

    def plain(self, want):
        """Every access of a place in `want' that is not atomic: (fn, node, key, base, mode)."""
        fields = {k[2].split(".")[-1] for k in want if k[0] == "f"} | {k[2].split(".")[0] for k in want if k[0] == "f"}
        names = {k[2] for k in want if k[0] == "g"}
        for f in self.prog.fns:
            seen = set()
            for n in f.walk():
                k = f.kind(n)
                if k == "mem":
                    if f.pay(n)[0] not in fields:
                        continue
                elif k == "var":
                    if f.varname(f.var_of(n)) not in names:
                        continue
                elif not (k == "idx" or k == "un" and f.pay(n) == "*"):
                    continue
                # the whole place
                q = f.parent(n)
                if q is not None and (f.kind(q) == "mem" and not f.pay(q)[2] or f.kind(q) in ("idx",) and f.unwrap(f.kids(q)[0]) == n):
                    if f.kind(q) == "mem" or True:
                        pk, _ = self.place(f, q)
                        if self.gkey(f, pk) in want:
                            continue
                key, base = self.place(f, n)
                key = self.gkey(f, key)
                if key not in want:
                    continue
                # context
                e, q = n, f.parent(n)
                while q is not None and f.kind(q) in ("paren", "cast"):
                    e, q = q, f.parent(q)
                mode = "read"
                if q is not None:
                    qk = f.kind(q)
                    if qk == "un" and f.pay(q) == "&":
                        g = f.parent(q)
                        while g is not None and f.kind(g) in ("paren", "cast"):
                            q, g = g, f.parent(g)
                        if g is not None and f.kind(g) == "atomic" and f.kids(g)[0] == q:
                            continue
                        mode = "addr"
                    elif qk == "un" and f.pay(q) in ("pre++", "post++", "pre--", "post--"):
                        mode = "write"
                    elif qk == "asg" and f.kids(q)[0] == e:
                        mode = "write"
                    elif qk == "sizeof":
                        continue
                    elif qk == "idx" and f.kids(q)[0] == e:
                        continue     # the element is what is accessed
                    elif qk == "mem":
                        continue
                yield f, n, key, base, mode


class Locks:
    """Which locks are held at each point: a forward analysis of nvc_lock/SCOPED_LOCK, entry sets from the callers."""

    def __init__(self, prog, shared, lock="nvc_lock", unlock="nvc_unlock", scoped="__scoped_unlock", gives=None, takes=None):
        self.gives, self.takes = gives or {}, takes or {}
        self.prog, self.sh = prog, shared
        self.names = (lock, unlock, scoped)
        self.entry = {}
        self.cand = set()
        refs = prog.fn_refs()
        self.callers = {}
        for f in prog.fns:
            for c in f.calls():
                g = prog.callee(f, c)
                if g is not None and not self.fresh_call(f, c):
                    self.callers.setdefault(g, []).append((f, c))
        self.uses = {f for f in prog.fns if any(f.callee(c) == lock or f.callee(c) in self.gives for c in f.calls())}
        self.addr = refs
        self.at = {}
        self.solve()

    def fresh_call(self, f, c):
        return any(self.sh.fresh(f, a) for a in f.args(c)[:1])

    def key(self, f, arg):
        p = f.unwrap(arg)
        if f.kind(p) == "un" and f.pay(p) == "&":
            k, _ = self.sh.place(f, f.kids(p)[0])
            return self.sh.gkey(f, k)
        if f.kind(p) == "var":
            t = self.sh.alias(f, p)
            if t is not None:
                k, _ = self.sh.place(f, t)
                return self.sh.gkey(f, k)
        return None

    def run(self, f, start):
        lock, unlock, scoped = self.names
        scopedvar = {}
        for n in f.walk():
            if f.kind(n) == "decl":
                for v, init in f.pay(n):
                    if init is not None and f.vartype(v).replace(" ", "").startswith("nvc_lock_t*"):
                        scopedvar[v] = self.key(f, init)
        at = {}

        def transfer(st, e, b, i):
            if st is None:
                return st
            if not isinstance(e, int):
                if len(e) > 2 and e[2] == scoped:
                    return st - {scopedvar.get(e[1])}
                return st
            at[e] = at[e] & st if e in at else st
            if f.kind(e) == "call":
                c = f.callee(e)
                if c == lock or c == "assert_lock_held":
                    return st | {self.key(f, f.args(e)[0])}
                if c == unlock:
                    return st - {self.key(f, f.args(e)[0])}
                if c in self.gives:
                    return st | {self.gives[c]}
                if c in self.takes:
                    return st - {self.takes[c]}
            return st

        ins = core.forward(f, start, transfer, None, lambda a, b: a & b)
        return at

    def solve(self):
        """Entry sets: what every caller holds (functions whose address is taken, or without callers: nothing)."""
        need = set(self.uses)
        work = list(need)
        while work:
            f = work.pop()
            for c in f.calls():
                g = self.prog.callee(f, c)
                if g is not None and g.static and g not in need:
                    need.add(g)
                    work.append(g)
        self.need = need
        TOP = None
        entry = {f: (TOP if f.static and f.name not in self.addr and self.callers.get(f) else frozenset()) for f in need}
        changed = True
        at = {}
        while changed:
            changed = False
            for f in sorted(need, key=lambda x: (x.file, x.line)):
                if entry[f] is TOP:
                    ok = [self.held_in(at, g, c, entry) for g, c in self.callers[f]]
                    known = [s for s in ok if s is not None]
                    if not known:
                        continue
                    new = frozenset.intersection(*known)
                else:
                    new = entry[f]
                    if f.static and f.name not in self.addr and self.callers.get(f):
                        known = [s for s in (self.held_in(at, g, c, entry) for g, c in self.callers[f]) if s is not None]
                        if known:
                            new = frozenset.intersection(*known) & new
                if entry[f] is None or new != entry[f] or f not in at:
                    entry[f] = new
                    at[f] = self.run(f, new)
                    changed = True
        self.entry, self.at = entry, at

    def held_in(self, at, g, c, entry):
        if g not in self.need:
            return frozenset()
        if entry.get(g) is None or g not in at:
            return None
        return at[g].get(c, frozenset())

    def held(self, f, n):
        """Locks held where n is evaluated."""
        if f not in self.at:
            return frozenset()
        a = self.at[f]
        while n is not None and n >= 0:
            if n in a:
                return a[n]
            n = f.parent(n)
        return self.entry.get(f) or frozenset()
