"""Node-kind typestate: which kinds a syntax-tree node can have at each point
(from switches and comparisons on its kind and from the call sites of the
enclosing function), checked against the attributes each kind has."""
import collections
import core
from facts import AnalysisError

FAMILIES = [("src/tree.c", "tree_kind", "tree_t"), ("src/type.c", "type_kind", "type_t"),
            ("src/vlog/vlog-node.c", "vlog_kind", "vlog_node_t"), ("src/psl/psl-node.c", "psl_kind", "psl_node_t")]


class Family:
    def __init__(self, prog, file, kind_fn, ty):
        self.file, self.kind_fn, self.ty = file, kind_fn, ty
        gs = [g for g in prog.globals.get("has_map", []) if g["file"] == file and g["init"] >= 0]
        if len(gs) != 1:
            raise AnalysisError("no attribute table in " + file)
        v = core.GVar(gs[0], prog)
        masks = [v.const(k) for k in v.kids(v.body)]
        kf = prog.fn(kind_fn)
        en = kf.ret
        self.kind_ty = kf.ret
        if en not in prog.enums and en in prog.typedefs:
            en = prog.typedefs[en]["canon"].replace("enum ", "")
        if en not in prog.enums:
            raise AnalysisError("kind enumeration %s not found" % en)
        self.enum = en
        cs = [(c, x) for c, x in prog.enums[en] if "_LAST_" not in c]
        self.name = {x: c for c, x in cs}
        self.masks = {}
        for c, x in cs:
            m = masks[x] if x < len(masks) else None
            if m is None:
                m = 0
            self.masks[x] = m & 0xffffffffffffffff
        self.universe = frozenset(self.masks)
        # accessors: functions that look up one attribute of a parameter
        self.acc = {}
        for f in prog.in_file(file):
            if not f.params:
                continue
            hits = set()
            for n in f.walk():
                if f.kind(n) == "bin" and f.pay(n) == "&":
                    a, b = f.kids(n)
                    a = f.unwrap(a)
                    par = f.parent(n)
                    while par >= 0 and f.kind(par) == "cast":
                        par = f.parent(par)
                    if f.kind(a) == "var" and f.varname(f.pay(a)) == "__has" and f.const(b) is not None \
                            and par >= 0 and f.kind(par) == "bin" and f.pay(par) == "==":
                        hits.add((f.const(b) & 0xffffffffffffffff, n))
            hits = {h for h in hits if bin(h[0]).count("1") == 1}
            src = set()
            for n in f.walk():
                if f.kind(n) == "idx" and f.txt(f.kids(n)[0]) == "has_map":
                    x = f.unwrap(f.kids(n)[1])
                    while x >= 0 and f.kind(x) in ("mem", "cast"):
                        x = f.kids(x)[0]
                    v_ = f.var_of(x)
                    if v_ is not None:
                        src.add(v_)
            if hits and src == {f.params[0]}:
                # required on every path?
                req = 0
                for m, n in hits:
                    b = None
                    p = n
                    while p >= 0 and b is None:
                        b = f.cfg.where(p)
                        p = f.parent(p)
                    if b and f.cfg.dominates(b[0], f.cfg.exit):
                        req |= m
                if req:
                    self.acc[f.name] = req
        self.pure = {f.name for f in prog.in_file(file)
                     if not f.name.split("_", 1)[-1].startswith(("set_", "add_", "change_", "new", "trim_", "copy", "rewrite"))}


class Kinds:
    def __init__(self, prog, families=FAMILIES):
        self.prog = prog
        self.fams = [Family(prog, *x) for x in families]
        self.acc = {}
        self.kindfn = {}
        self.pure = set()
        for fa in self.fams:
            self.kindfn[fa.kind_fn] = fa
            for a, m in fa.acc.items():
                self.acc[a] = (fa, m)
            self.pure |= fa.pure
        self.byty = {fa.ty: fa for fa in self.fams}
        # functions that may change the kind of an existing node
        ch = {f.name for f in prog.fns if f.name in ("tree_change_kind", "object_change_kind", "type_change_kind",
                                                     "vlog_change_kind", "psl_change_kind")}
        if not ch:
            raise AnalysisError("no kind-changing primitive found")
        work = list(ch)
        while work:
            x = work.pop()
            for f, n in prog.callers(x):
                if f.name not in ch:
                    ch.add(f.name)
                    work.append(f.name)
        self.changers = ch
        self.preds = {}
        self.sites = 0
        self.violations = {}
        self.param = {}
        self.pred_busy = set()

    # ---- keys
    def key(self, fn, n):
        n = fn.unwrap(n)
        if n < 0:
            return None
        k = fn.kind(n)
        if k == "var":
            return ("v", fn.pay(n))
        if k == "call":
            nm = fn.callee(n)
            if nm in self.acc and fn.args(n) or nm in self.pure and fn.args(n):
                b = self.key(fn, fn.args(n)[0])
                if b is None:
                    return None
                rest = []
                for a in fn.args(n)[1:]:
                    if fn.const(a) is not None:
                        rest.append(fn.const(a))
                    else:
                        x = self.key(fn, a)
                        if x is None:
                            return None
                        rest.append(x)
                return ("c", nm, b, tuple(rest))
            return None
        if k == "mem":
            b = self.key(fn, fn.kids(n)[0])
            return None if b is None else ("m", b, fn.pay(n)[0])
        if k == "un" and fn.pay(n) == "*":
            b = self.key(fn, fn.kids(n)[0])
            return None if b is None else ("d", b)
        if k == "asg" and fn.pay(n) == "=":
            return self.key(fn, fn.kids(n)[0])
        return None

    def mentions(self, key, var):
        if key == ("v", var):
            return True
        return isinstance(key, tuple) and any(self.mentions(x, var) for x in key if isinstance(x, tuple))

    def volatile(self, key):
        return isinstance(key, tuple) and (key[0] in ("m", "d", "c") or any(self.volatile(x) for x in key if isinstance(x, tuple)))

    def root_mut(self, key):
        return key[0] in ("m", "d") or any(self.root_mut(x) for x in key if isinstance(x, tuple) and x)

    # ---- value sets
    def valset(self, fn, n, st):
        n = fn.unwrap(n)
        if n < 0:
            return None
        k = fn.kind(n)
        ky = self.key(fn, n)
        if ky is not None and ky in st:
            return st[ky]
        if k == "call":
            nm = fn.callee(n)
            if nm in ("tree_new", "vlog_new", "psl_new", "type_new") and fn.args(n):
                c = fn.const(fn.args(n)[0])
                if c is not None:
                    return frozenset([c])
        if k == "cond":
            a, b = self.valset(fn, fn.kids(n)[1], st), self.valset(fn, fn.kids(n)[2], st)
            return a | b if a is not None and b is not None else None
        if k == "asg" and fn.pay(n) == "=":
            return self.valset(fn, fn.kids(n)[1], st)
        return None

    def kind_of(self, fn, n, st):
        """(family, key) if the expression is the kind of a node."""
        n = fn.unwrap(n)
        if n < 0:
            return None
        if fn.kind(n) == "call" and fn.callee(n) in self.kindfn and fn.args(n):
            return self.kindfn[fn.callee(n)], self.key(fn, fn.args(n)[0])
        if fn.kind(n) == "var":
            b = st.get(("kv", fn.pay(n)))
            if b is not None:
                return b
        if fn.kind(n) == "asg" and fn.pay(n) == "=":
            return self.kind_of(fn, fn.kids(n)[1], st)
        return None

    # ---- narrowing
    def narrow(self, st, fa, key, keep=None, drop=None):
        if key is None:
            return st
        cur = st.get(key)
        if keep is not None:
            new = frozenset(keep) if cur is None else cur & frozenset(keep)
        else:
            if cur is None:
                return st
            new = cur - frozenset(drop)
        if not new:
            return None
        if cur == new:
            return st
        st = dict(st)
        st[key] = new
        return st

    def refine(self, fn, cond, val, st):
        todo = list(core.atoms(fn, cond, val))
        for n, v in todo:
            if st is None:
                return None
            x = fn.unwrap(n)
            if fn.kind(x) == "var":
                b = st.get(("bv", fn.pay(x)))
                if b is not None and len(todo) < 64:
                    todo.extend(y for y in core.atoms(fn, b[0], v) if y[0] != n)
            k = fn.kind(n)
            if k == "bin" and fn.pay(n) in ("==", "!="):
                a, b = fn.kids(n)
                for x, y in ((a, b), (b, a)):
                    c = fn.const(y)
                    if c is None:
                        continue
                    ko = self.kind_of(fn, x, st)
                    if ko is None or ko[1] is None:
                        continue
                    eq = v == (fn.pay(n) == "==")
                    st = self.narrow(st, ko[0], ko[1], keep=[c]) if eq else self.narrow(st, ko[0], ko[1], drop=[c])
                    break
            elif k == "call" and fn.args(n):
                for i, pt, pf, bykind in self.predicate(fn, n):
                    if st is None:
                        return None
                    if bykind:
                        ko = self.kind_of(fn, fn.args(n)[i], st)
                        ky = ko[1] if ko else None
                    else:
                        ky = self.key(fn, fn.args(n)[i])
                    cur = st.get(ky)
                    # a predicate only narrows a set that is already known
                    if cur is not None:
                        st = self.narrow(st, None, ky, drop=cur - (pt if v else pf))
        return st

    def predicate(self, fn, n):
        """[(argument, kinds for which the call may be true, kinds for which it
        may be false, argument is the kind itself)]"""
        cal = self.prog.callee(fn, n)
        if cal is None or cal.ret not in ("bool", "_Bool") or not 1 <= len(cal.params) <= 3:
            return []
        if cal in self.preds:
            return self.preds[cal]
        if cal in self.pred_busy or len(self.pred_busy) > 3 or len(cal.N) > 2500 or cal.name in self.changers:
            return []
        out = []
        self.pred_busy.add(cal)
        for i, pv in enumerate(cal.params):
            fa = self.byty.get(cal.vartype(pv))
            bykind = False
            if fa is None:
                ty = cal.vartype(pv).replace("const ", "").replace("enum ", "")
                for x in self.fams:
                    if ty in (x.enum, x.kind_ty):
                        fa, bykind = x, True
            if fa is None:
                continue
            t, f = set(), set()
            for k in fa.universe:
                if bykind:
                    init = {("kv", pv): (fa, ("k", pv)), ("k", pv): frozenset([k])}
                else:
                    init = {("v", pv): frozenset([k])}
                res = set()
                ins = self.solve(cal, init, None)
                for b, st in ins.items():
                    s = st
                    for e in cal.cfg.blocks[b].elems:
                        if not isinstance(e, int):
                            continue
                        if cal.kind(e) == "ret" and cal.kids(e):
                            res |= self.truthset(cal, cal.kids(e)[0], s)
                        s = self.step(cal, e, s, None)
                        if s is None:
                            break
                if True in res:
                    t.add(k)
                if False in res:
                    f.add(k)
            if len(t) < len(fa.universe) or len(f) < len(fa.universe):
                out.append((i, frozenset(t), frozenset(f), bykind))
        self.pred_busy.discard(cal)
        self.preds[cal] = out
        return out

    def truthset(self, fn, n, st):
        c = fn.const(n)
        if c is not None:
            return {bool(c)}
        n = fn.unwrap(n)
        k = fn.kind(n)
        if fn.const(n) is not None:
            return {bool(fn.const(n))}
        if k == "un" and fn.pay(n) == "!":
            return {not x for x in self.truthset(fn, fn.kids(n)[0], st)}
        if k == "bin" and fn.pay(n) in ("&&", "||"):
            a = self.truthset(fn, fn.kids(n)[0], st)
            b = self.truthset(fn, fn.kids(n)[1], st)
            op = (lambda x, y: x and y) if fn.pay(n) == "&&" else (lambda x, y: x or y)
            return {op(x, y) for x in a for y in b}
        r = set()
        for v in (True, False):
            if self.refine(fn, n, v, st) is not None:
                r.add(v)
        return r or {True, False}

    # ---- transfer
    def dead(self, k, val, test):
        if k[0] == "kv":
            return bool(val[1]) and test(val[1])
        if k[0] == "bv":
            return any(test(x) for x in val[1])
        return test(k)

    def condkeys(self, fn, n):
        """Keys of the nodes whose kind an expression tests, or None when it
        is not a pure combination of kind tests."""
        keys = []
        hit = False
        for x, v in core.atoms(fn, n, True) + core.atoms(fn, n, False):
            k = fn.kind(x)
            if k == "call" and fn.args(x) and fn.callee(x):
                ky = self.key(fn, fn.args(x)[0])
                if ky is not None:
                    keys.append(ky)
                    hit = True
            elif k == "bin":
                for y in fn.kids(x):
                    y = fn.unwrap(y)
                    if fn.kind(y) == "call" and fn.callee(y) in self.kindfn:
                        ky = self.key(fn, fn.args(y)[0])
                        if ky is None:
                            return None
                        keys.append(ky)
                        hit = True
                    elif fn.kind(y) == "var":
                        keys.append(("v", fn.pay(y)))
                        hit = True
            elif k == "var":
                keys.append(("v", fn.pay(x)))
        return keys if hit else None

    def kill_var(self, st, v):
        dead = [k for k in st if self.dead(k, st[k], lambda x: self.mentions(x, v)) or k[0] in ("kv", "bv") and k[1] == v]
        if not dead:
            return st
        st = dict(st)
        for k in dead:
            del st[k]
        return st

    def assign(self, fn, v, rhs, st):
        s = self.valset(fn, rhs, st)
        ko = self.kind_of(fn, rhs, st)
        st = self.kill_var(st, v)
        if s is not None:
            st = dict(st)
            st[("v", v)] = s
        if ko is not None and ko[1] is not None and not self.mentions(ko[1], v):
            st = dict(st)
            st[("kv", v)] = ko
        r = fn.unwrap(rhs) if rhs >= 0 else -1
        if r >= 0 and ko is None and fn.vartype(v).replace("const ", "") in ("bool", "_Bool", "int") and fn.kind(r) in ("bin", "un", "call"):
            ks = self.condkeys(fn, rhs)
            if ks and not any(self.mentions(x, v) for x in ks):
                st = dict(st)
                st[("bv", v)] = (rhs, tuple(ks))
        return st

    def step(self, fn, e, st, report):
        k = fn.kind(e)
        if k == "decl":
            for v, init in fn.pay(e):
                st = self.assign(fn, v, init, st) if init >= 0 else self.kill_var(st, v)
            return st
        if k == "asg":
            v = fn.var_of(fn.kids(e)[0])
            if v is not None:
                if fn.pay(e) == "=":
                    return self.assign(fn, v, fn.kids(e)[1], st)
                return self.kill_var(st, v)
            dead = [x for x in st if self.dead(x, st[x], self.root_mut)]
            if dead:
                st = dict(st)
                for x in dead:
                    del st[x]
            return st
        if k == "un" and ("++" in fn.pay(e) or "--" in fn.pay(e)):
            v = fn.var_of(fn.kids(e)[0])
            return self.kill_var(st, v) if v is not None else st
        if k == "call":
            nm = fn.callee(e)
            args = fn.args(e)
            if nm in self.acc and args:
                fa, need = self.acc[nm]
                s = self.valset(fn, args[0], st)
                if report is not None:
                    self.sites += 1 if s is not None else 0
                    report(fn, e, nm, fa, need, s)
            if report is not None:
                self.flow(fn, e, st)
            if nm in self.pure or nm in self.kindfn or nm is None and False:
                return st
            if nm in ("tree_change_kind", "vlog_change_kind", "type_change_kind") and len(args) > 1:
                ky = self.key(fn, args[0])
                c = fn.const(args[1])
                st = {x: y for x, y in st.items() if x[0] == "v" and x != ky}
                if ky is not None and c is not None:
                    st[ky] = frozenset([c])
                return st
            cal = self.prog.callee(fn, e)
            if nm in self.changers or (cal is None and nm is None):
                # kinds of nodes other than those built here may change
                return {}
            dead = [x for x in st if self.dead(x, st[x], self.volatile)]
            # &v passed: v may be rewritten
            out = []
            for a in args:
                a = fn.unwrap(a)
                if fn.kind(a) == "un" and fn.pay(a) == "&":
                    v = fn.var_of(fn.kids(a)[0])
                    if v is not None:
                        out.append(v)
            isset = nm is not None and nm.startswith(("tree_set_", "tree_add_", "vlog_set_", "vlog_add_", "psl_set_",
                                                      "psl_add_", "type_set_", "type_add_"))
            if isset or cal is None or not isset:
                keep_calls = not isset and cal is None     # library functions do not touch nodes
                if not keep_calls:
                    dead2 = dead
                else:
                    dead2 = []
                if dead2:
                    st = dict(st)
                    for x in dead2:
                        st.pop(x, None)
            for v in out:
                st = self.kill_var(st, v)
            return st
        return st

    def join(self, a, b):
        if a is b or a == b:
            return a
        r = {}
        for k in a.keys() & b.keys():
            if k[0] in ("kv", "bv"):
                if a[k] == b[k]:
                    r[k] = a[k]
            else:
                r[k] = a[k] | b[k]
        return r

    def solve(self, fn, init, report):
        def tr(st, e, b, i):
            return self.step(fn, e, st, report) if isinstance(e, int) else st

        def ed(st, b, s, kind):
            blk = fn.cfg.blocks[b]
            if kind is True or kind is False:
                return self.refine(fn, blk.cond, kind, st)
            if isinstance(kind, tuple) and blk.cond is not None:
                ko = self.kind_of(fn, blk.cond, st)
                if ko is not None and ko[1] is not None:
                    if kind[0] == "case":
                        return self.narrow(st, ko[0], ko[1], keep=kind[1])
                    return self.narrow(st, ko[0], ko[1], drop=kind[1])
            return st
        return core.forward(fn, init, tr, ed, self.join)

    # ---- interprocedural
    def flow(self, fn, n, st):
        cal = self.prog.callee(fn, n)
        if cal is None or cal not in self.param:
            return
        args = fn.args(n)
        cur = self.param[cal]
        changed = cur is None
        new = {} if cur is None else dict(cur)
        for i, pv in enumerate(cal.params):
            if cal.vartype(pv) not in self.byty:
                continue
            s = self.valset(fn, args[i], st) if i < len(args) else None
            if cur is None:
                new[pv] = s
            else:
                o = new.get(pv)
                u = None if o is None or s is None else o | s
                if u != o:
                    new[pv] = u
                    changed = True
        if changed:
            self.param[cal] = new
            self.work.add(cal)

    def analyse(self):
        prog = self.prog
        refs = prog.fn_refs()
        fns = [f for f in prog.fns if f.cfg_raw is not None]
        self.param = {}
        self.work = set()
        roots = []
        for f in fns:
            interesting = any(f.vartype(p) in self.byty for p in f.params)
            called = bool(prog.callers(f.name))
            if interesting and called and f.name not in refs and len(prog.by_name[f.name]) == 1 \
                    and f.file not in [fa.file for fa in self.fams]:
                self.param[f] = None       # bottom: not reached yet
            else:
                roots.append(f)
        nul = lambda *a: None
        for f in roots:
            self.solve(f, {}, nul)
        rounds = 0
        while self.work:
            rounds += 1
            if rounds > 60000:
                raise AnalysisError("kind propagation did not converge")
            f = self.work.pop()
            self.solve(f, self.init(f), nul)
        # reporting pass
        self.sites = 0
        seen = set()

        def report(fn, e, nm, fa, need, s):
            if s is None:
                return
            bad = [k for k in s if need & ~fa.masks.get(k, 0)]
            ky = (fn, e)
            if bad:
                self.violations[ky] = (nm, fa, sorted(fa.name.get(k, str(k)) for k in bad))
            seen.add(ky)
        self.frozen = self.param
        save = self.param
        self.param = {}
        for f in fns:
            if f in save and save[f] is None:
                continue          # unreachable from any root
            ins = self.solve(f, self.init(f, save), None)
            for b, st in ins.items():
                for e in f.cfg.blocks[b].elems:
                    if isinstance(e, int):
                        st = self.step(f, e, st, report)
                        if st is None:
                            break
        self.param = save
        self.sites = len(seen)
        self.seen = seen
        return fns

    def init(self, f, param=None):
        p = (param or self.param).get(f) or {}
        return {("v", v): s for v, s in p.items() if s is not None}
