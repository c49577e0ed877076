"""P13: every scheduled process, driver and signal update runs once, in its phase of the simulation cycle."""
import core
import paths
from facts import AnalysisError

DEBUG = False
M = "src/rt/model.c"
WANT = [M, "src/vhpi/vhpi-model.c"]
EXPLAIN = """
(phase) Along every path of a simulation cycle (helpers followed) the steps happen in the standard's order: the delta flag is
taken and cleared, time or delta count advances, the delta queues become current, callbacks, due events are collected, drivers
update, driving values, effective values, event flags, implicit signals, processes, then - only when no delta cycle follows and
with new deltas forbidden - postponed processes.
(drain) A heap is left only when it is empty (the event heap: when its next entry is in the future).
(time) Time only moves to the key of the earliest event, and only when no delta cycle is due; the delta count restarts or
advances with it.
(once) On every path a wakeable is put on a queue exactly as often as it is marked pending, a delayed process exactly as often
as it is put on the event heap, and a nexus on the driving or effective heap exactly as often as it is flagged.
(callback) What runs from a queue first takes the mark off again, on every path, before anything that could queue it again.
(queue) Postponed work goes on the postponed queue and other work on the process queue, decided on the same object.
(delta) Whatever is put on a delta queue makes the next cycle a delta cycle.
(types) The function queued with an object takes that type; tags and kinds are read back as the type they were stored with.
(events) Every kind of event that is put on the heap is handled when it is taken off.
(delay) Every schedule request of the running design has been checked for a negative delay, a delta from a postponed process
and a pulse rejection limit above the delay.
(record) An event records its time and delta together; a changed effective value is announced.
(rank) The driving heap is ordered by rank, the effective heap against it.
"""
ASSUME = ["objects of one type reached through different variables are told apart only by the expression that reaches them",
          "a queue function is one that stores into (or calls through) the task array of a queue",
          "initialisation and tear-down run before and after all cycles"]

HEAPS = ("eventq_heap", "driving_heap", "effective_heap")
MODEL = ("M",)


def mf(x): return ("m", MODEL, x)


def field(v):
    """Field of the model a value denotes: &m->procq, m->eventq_heap."""
    if v is None:
        return None
    if v[0] == "&" and v[1][0] == "m" and v[1][1] == MODEL:
        return v[1][2]
    if v[0] == "s" and v[1][0] == "m" and v[1][1] == MODEL:
        return v[1][2]
    return None


class Shape:
    """The queue primitives and callbacks of the model, found by what they do."""

    def __init__(self, prog):
        self.prog = prog
        self.fns = [f for f in prog.fns if f.file == M and f.cfg_raw is not None]
        self.push, self.run, self.swap, self.cycle_cb = {}, {}, {}, set()
        for f in self.fns:
            ps = f.params
            pt = [f.vartype(v).replace("const ", "") for v in ps]
            q = [i for i, t in enumerate(pt) if t.startswith("deferq_t *")]
            ind = any(f.callee(c) is None for c in f.calls())
            if q:
                calls_through = any(f.callee(c) is None and any(f.kind(x) == "mem" and f.pay(x)[0] == "fn" for x in f.walk(f.kids(c)[0])) for c in f.calls())
                if len(q) == 2:
                    self.swap[f.name] = q
                elif calls_through and not any(f.vartype(v) in ("scan_fn_t",) for v in ps):
                    self.run[f.name] = q[0]
                elif len(ps) == 3 and any(f.vartype(v) == "defer_fn_t" for v in ps) and \
                        any(f.kind(n) == "un" and "++" in str(f.pay(n)) for n in f.walk()):
                    fi = [i for i, v in enumerate(ps) if f.vartype(v) == "defer_fn_t"][0]
                    ai = [i for i in range(3) if i not in (q[0], fi)][0]
                    self.push[f.name] = (q[0], fi, ai)
            if ind and any(f.kind(n) == "mem" and f.pay(n)[0] == "global_cbs" for n in f.walk()) and \
                    any(t == "rt_event_t" for t in pt):
                self.cycle_cb.add((f.name, [i for i, t in enumerate(pt) if t == "rt_event_t"][0]))
        self.glob = dict(self.cycle_cb)
        self.byname = {f.name: f for f in self.fns}
        # callbacks: functions given to a push, and the type of what they are given
        self.cbs = {}
        for f in self.fns:
            for c in f.calls():
                if f.callee(c) in self.push:
                    _, fi, _ = self.push[f.callee(c)]
                    a = f.args(c)[fi]
                    y = f.unwrap(a)
                    if y >= 0 and f.kind(y) == "fn" and f.pay(y) in self.byname:
                        self.cbs[f.pay(y)] = self.argtype(self.byname[f.pay(y)])
        # callbacks called via the queue of another name (parameter) keep their type
        self.flags = {}
        for f in self.fns:
            for n in f.walk():
                m = f.macro(n)
                if m and f.const(n) is not None and (m.startswith("NET_F_") or m.startswith("SIG_F_")):
                    self.flags.setdefault(m, f.const(n))

    def argtype(self, g, depth=0):
        """Type of the object a callback takes its void argument for."""
        v = g.params[-1]
        for n in g.walk():
            if g.kind(n) == "decl":
                for w, i in g.pay(n):
                    if i is not None and i >= 0 and g.var_of(i) == v:
                        return g.vartype(w)
            elif g.kind(n) == "cast" and g.type(n).endswith("*") and g.type(n) != "void *" and g.var_of(g.kids(n)[0]) == v:
                return g.type(n)
            elif g.kind(n) == "call" and depth < 3:
                h = self.byname.get(g.callee(n) or "")
                for i, a in enumerate(g.args(n)):
                    if g.var_of(a) == v and h is not None and i < len(h.params):
                        t = h.vartype(h.params[i])
                        if t.endswith("*") and t != "void *":
                            return t
        return None

    def record(self, t):
        t = (t or "").replace("const ", "").replace("struct ", "").replace("*", "").strip()
        return t[1:] + "_t" if t.startswith("_") else t

    def wakeable(self, cb):
        """Does the callback's object carry a wakeable?"""
        t = self.record(self.cbs.get(cb))
        t = self.prog.typedefs.get(t, t) if isinstance(self.prog.typedefs.get(t, t), str) else t
        return "wakeable" in self.fields(t)

    def fields(self, t):
        r = self.prog.records.get(t) or self.prog.records.get(t.replace("struct ", "")) or \
            self.prog.records.get("_" + t.replace("_t", "")) or self.prog.records.get("_" + t[:-2] if t.endswith("_t") else t)
        return [x[0] for x in r["fields"]] if r else []


class Base(paths.Client):
    file = M
    singletons = {"rt_model_t *": "M"}
    unsigned = ("size", "count", "max")

    def __init__(self, sh):
        self.sh = sh

    fields = frozenset()

    def tracks(self, fld):
        return fld in self.fields

    def relevant(self, atom):
        return paths.mentions(atom, lambda t: t[0] == "m" and t[-1] in self.fields or t[0] == "top")

    def keeps(self, P):
        return P[0] == "m" and P[1] == MODEL and P[2] in HEAPS

    def effect(self, nm):
        if nm in self.sh.run or nm in self.sh.glob:
            return {"*"}
        if nm in ("heap_insert", "heap_extract_min", "heap_delete"):
            return {"size", "$min"}
        if nm.startswith("jit_") and ("call" in nm):
            return {"*"}
        if nm in ("memset", "memcpy"):
            return ()
        return None

    def stable(self, nm):
        return nm.startswith("get_active") or nm.startswith("nexus_") or nm in ("value_ptr",)

    def heapop(self, pp, f, e, nm, args, st):
        """Value and effect of the heap primitives on one heap."""
        h = args[0] if args else None
        if nm == "heap_min_key":
            st = st.copy()
            st.env[("r", e)] = pp.load(("m", ("*", h), "$min"), st) if h else None
            return [st]
        if nm in ("heap_insert", "heap_extract_min", "heap_delete") and h is not None:
            st = st.copy()
            for x in ("size", "$min"):
                pp.clobber(st, x, (f.name, e), None)
            top = ("top", f.name, e)
            pp.purge(st, lambda t: t == top)
            st.env[("r", e)] = top if nm == "heap_extract_min" else None
            return [st]
        return None


# ------------------------------------------------------------------ the cycle

ORDER = [  # (earlier, later)
    ("clear", "*"), ("advance", "*"),
    ("swap:procq", "global:RT_NEXT_TIME_STEP"), ("swap:procq", "global:RT_NEXT_CYCLE"),
    ("swap:driverq", "global:RT_NEXT_TIME_STEP"), ("swap:driverq", "global:RT_NEXT_CYCLE"),
    ("swap:procq", "extract:eventq_heap"), ("swap:driverq", "extract:eventq_heap"),
    ("swap:procq", "run:procq"), ("swap:driverq", "run:driverq"),
    ("global:RT_NEXT_TIME_STEP", "global:RT_NEXT_CYCLE"), ("global:RT_NEXT_CYCLE", "run:driverq"),
    ("extract:eventq_heap", "run:driverq"), ("run:driverq", "extract:driving_heap"),
    ("extract:driving_heap", "extract:effective_heap"), ("extract:effective_heap", "sync"),
    ("extract:effective_heap", "run:implicitq"), ("run:driverq", "sync"), ("run:driverq", "run:implicitq"),
    ("sync", "run:procq"), ("run:implicitq", "run:procq"), ("run:procq", "global:RT_END_OF_PROCESSES"),
    ("global:RT_END_OF_PROCESSES", "global:RT_LAST_KNOWN_DELTA_CYCLE"),
    ("global:RT_END_OF_PROCESSES", "run:postponedq"),
    ("global:RT_LAST_KNOWN_DELTA_CYCLE", "run:postponedq"), ("run:postponedq", "global:RT_END_TIME_STEP"),
]
ALWAYS = ["clear", "advance", "swap:procq", "swap:driverq", "global:RT_NEXT_CYCLE", "run:driverq", "sync", "run:implicitq",
          "run:procq", "global:RT_END_OF_PROCESSES"]
LAST = ["global:RT_LAST_KNOWN_DELTA_CYCLE", "run:postponedq", "global:RT_END_TIME_STEP"]
MAYBE = {"extract:eventq_heap", "extract:driving_heap", "extract:effective_heap", "global:RT_NEXT_TIME_STEP"}


class Cycle(Base):
    fields = frozenset(["next_is_delta", "iteration", "now", "can_create_delta", "size", "$min"])

    def pinned(self, atom):
        return atom == ("nz", ("s", mf("next_is_delta"), (None, None)))

    def __init__(self, sh, rep):
        super().__init__(sh)
        self.rep = rep
        self.seen = {}
        self.bad = {}
        self.inl = self.closure()
        self.tags = set()

    def closure(self):
        sh = self.sh
        direct = set()
        rev = {}
        for f in sh.fns:
            for n in f.walk():
                k = f.kind(n)
                if k == "call":
                    nm = f.callee(n)
                    if nm in sh.run or nm in sh.swap or nm in sh.glob or nm == "heap_extract_min":
                        direct.add(f.name)
                    elif nm in sh.byname:
                        rev.setdefault(nm, set()).add(f.name)
                    # a push followed where it happens: needed to see that an event is handled
                elif k == "mem" and f.pay(n)[0] == "eventsigs":
                    direct.add(f.name)
                elif k == "asg":
                    t = f.unwrap(f.kids(n)[0])
                    if t >= 0 and f.kind(t) == "mem" and f.pay(t)[0] in ("now", "iteration", "next_is_delta", "can_create_delta") \
                            and f.type(f.unwrap(f.kids(t)[0])).startswith("rt_model_t") and not (f.pay(t)[0] == "next_is_delta" and f.const(f.kids(n)[1]) == 1):
                        direct.add(f.name)
        direct -= set(sh.run) | set(sh.swap) | set(sh.glob)
        out = set(direct)
        work = list(direct)
        while work:
            for g in rev.get(work.pop(), ()):
                if g not in out:
                    out.add(g)
                    work.append(g)
        self.direct = direct
        return out

    def inline(self, g):
        return g.name in self.inl and g.name not in self.sh.run and g.name not in self.sh.glob

    def report(self, rule, key, f, n, msg):
        self.bad.setdefault((rule, key), (f, n, msg))

    def done(self, st): return st.ext.get("ev", frozenset())

    def event(self, ev, f, n, st):
        d = self.done(st)
        self.seen.setdefault(ev, (f, n))
        for a, b in ORDER:
            if b == ev or b == "*" and ev not in ("clear", "advance"):
                if a not in MAYBE and a not in d and a not in LAST:
                    self.report("phase", "%s:%s" % (a, ev), f, n, "%s may happen before %s" % (ev, a))
            if a == ev and b != "*" and b in d:
                self.report("phase", "%s:%s" % (a, b), f, n, "%s may happen after %s" % (ev, b))
        if ev.startswith("swap:") and ev in d:
            self.report("phase", ev, f, n, "%s happens twice" % ev)
        st = st.copy()
        st.ext["ev"] = d | {ev}
        st._key = None
        return st

    def delta(self, pp, st):
        return pp.load(mf("next_is_delta"), st)

    def known(self, pp, v, st):
        if v is None:
            return None
        r = pp.nz(v)
        if r is None:
            return None
        if r[0] == "const":
            return r[1]
        k = pp.known(r[0], st)
        return None if k is None else k == r[1]

    def entry_delta(self, pp, st):
        return self.known(pp, ("s", mf("next_is_delta"), (None, None)), st)

    def empty(self, pp, h, st):
        hv = pp.load(mf(h), st)
        P = ("m", ("*", hv), "size")
        k = self.known(pp, pp.load(P, st), st)
        if k is False:
            return True
        return None

    def future(self, pp, st):
        hv = pp.load(mf("eventq_heap"), st)
        mk = pp.load(("m", ("*", hv), "$min"), st)
        r = pp.rel(">", mk, pp.load(mf("now"), st))
        return pp.known(r[0], st) == r[1] if pp.known(r[0], st) is not None else False

    def at_call(self, pp, f, e, nm, args, st):
        sh = self.sh
        if nm is None:
            return None
        if nm in sh.run:
            q = field(args[sh.run[nm]])
            if q is None:
                self.report("phase", "unknown-queue", f, e, "a queue that cannot be determined is run")
                return None
            st = self.event("run:" + q, f, e, st)
            if q == "driverq" and self.entry_delta(pp, st) is False:
                if self.empty(pp, "eventq_heap", st) is not True and not self.future(pp, st):
                    self.report("drain", "eventq_heap", f, e, "drivers update while events due now may be left on the event heap")
            if q in ("implicitq", "procq") and "sync" in self.done(st):
                pass
            if q == "postponedq":
                if self.known(pp, self.delta(pp, st), st) is not False:
                    self.report("phase", "postponed-delta", f, e, "postponed processes may run although a delta cycle follows")
                if self.known(pp, pp.load(mf("can_create_delta"), st), st) is not False:
                    self.report("phase", "postponed-create", f, e, "postponed processes run while new delta cycles are allowed")
            st = st.copy()
            pp.opaque(f, e, nm, None, st)
            return [st]
        if nm in sh.glob:
            v = args[sh.glob[nm]]
            k = v[2] if v is not None and v[0] == "c" and len(v) > 2 else None
            if k is not None:
                if k == "RT_LAST_KNOWN_DELTA_CYCLE" or k == "RT_END_TIME_STEP":
                    d = self.known(pp, self.delta(pp, st), st)
                    if k == "RT_LAST_KNOWN_DELTA_CYCLE" and d is not False:
                        self.report("phase", k, f, e, "%s may be signalled although a delta cycle follows" % k)
                if k == "RT_NEXT_TIME_STEP":
                    it = self.known(pp, pp.load(mf("iteration"), st), st)
                    if it is not False:
                        self.report("phase", k, f, e, "%s may be signalled in a delta cycle" % k)
                st = self.event("global:" + k, f, e, st)
            st = st.copy()
            pp.opaque(f, e, nm, None, st)
            return [st]
        if nm in sh.swap:
            qs = {field(args[i]) for i in sh.swap[nm]}
            for q in ("procq", "driverq"):
                if qs == {q, "delta_" + q}:
                    return [self.event("swap:" + q, f, e, st)]
            self.report("phase", "swap:" + "/".join(sorted(map(str, qs))), f, e, "queues of different kinds are exchanged")
            return [st]
        if nm == "heap_extract_min":
            h = field(args[0])
            if h is not None:
                st = self.event("extract:" + h, f, e, st)
                if h == "eventq_heap":
                    if self.entry_delta(pp, st) is not False:
                        self.report("phase", "extract-delta", f, e, "events may be taken off the heap in a delta cycle")
                    self.unhandled(pp, f, e, st)
                    st.ext["pend"] = (f.name, e)
                if h == "effective_heap" and self.empty(pp, "driving_heap", st) is not True and not st.ext.get("eff"):
                    self.report("drain", "driving_heap", f, e, "effective values are computed while driving values may be outstanding")
                if h == "effective_heap":
                    st.ext["eff"] = True
        if nm in sh.push:
            qi = sh.push[nm][0]
            q = field(args[qi])
            if "pend" in st.ext:
                st = st.copy()
                del st.ext["pend"]
            st._key = None
            if q in ("delta_procq", "delta_driverq"):
                self.report("phase", "push:" + q, f, e, "what is due now is put on the queue of the next cycle")
            return [st]
        return self.heapop(pp, f, e, nm, args, st)

    def unhandled(self, pp, f, e, st):
        if "pend" not in st.ext:
            return
        top = ("top",) + st.ext["pend"]
        tag = ("op", "&", top, ("c", 7))
        left = []
        for name, v in sorted(self.tags):
            r = pp.rel("==", tag, ("c", v))
            k = pp.known(r[0], st)
            if k is None or k == r[1]:
                left.append(name)
        if left:
            self.report("events", "+".join(left), f, e, "an event taken off the heap may be dropped: %s" % ", ".join(left))

    def at_write(self, pp, f, e, P, v, st):
        if P is None or P[0] != "m" or P[1] != MODEL:
            return None
        if P[2] == "next_is_delta" and v == ("c", 0):
            return self.event("clear", f, e, st)
        if P[2] == "now":
            if self.entry_delta(pp, st) is not False:
                self.report("time", "now-delta", f, e, "time may advance although a delta cycle is due")
            hv = pp.load(mf("eventq_heap"), st)
            if v is None or v != pp.load(("m", ("*", hv), "$min"), st):
                self.report("time", "now-value", f, e, "time is not set to the key of the earliest event")
            st = st.copy()
            st.ext["now"] = True
            return st
        if P[2] == "iteration":
            d = self.entry_delta(pp, st)
            old = pp.load(P, st)
            inc = v is not None and v[0] == "op" and v[1] == "+" and set(v[2:]) == {old, ("c", 1)} or f.kind(e) == "un" and "++" in f.pay(e)
            if not (d is True and inc or d is False and v is not None and v[0] == "c" and v[1] == 0):
                self.report("time", "iteration", f, e, "the delta count does not advance in a delta cycle and restart otherwise")
            return self.event("advance", f, e, st)
        if P[2] == "can_create_delta":
            st = st.copy()
            st.ext["ccd"] = bool(v is not None and v[0] == "c" and v[1])
            return st
        return None

    def at_edge(self, pp, f, blk, kind, st):
        if blk.cond is not None and blk.cond >= 0 and kind in (True, False):
            for x in f.walk(blk.cond):
                if f.kind(x) == "mem" and f.pay(x)[0] == "eventsigs":
                    if "sync" not in self.done(st):
                        st = self.event("sync", f, blk.cond, st)
                        if self.empty(pp, "effective_heap", st) is not True:
                            self.report("drain", "effective_heap", f, blk.cond, "event flags are synchronised while effective values are outstanding")
                if f.kind(x) == "mem" and f.pay(x)[0] == "stop_delta":
                    nd = self.known(pp, self.delta(pp, st), st)
                    st = st.copy()
                    st.ext["limit"] = True
                    if nd is True:
                        st.ext["again"] = True
                    st._key = None
        return st

    def grown(self, f, e, P, v, st):
        return v if P is not None and P[0] == "m" and P[1] == MODEL and P[2] == "iteration" else None

    def judge(self, pp, f, outs):
        rep = self.rep
        for ret, st in outs:
            d = self.done(st)
            for a in ALWAYS:
                if a not in d:
                    self.report("phase", "missing:" + a, f, f.body, "a path through the cycle leaves out %s" % a)
            if self.entry_delta(pp, st) is False and not st.ext.get("now"):
                self.report("time", "now-missing", f, f.body, "time does not advance in a cycle that is no delta cycle")
            self.unhandled(pp, f, f.body, st)
            if not st.ext.get("ccd", True):
                self.report("phase", "create-left", f, f.body, "delta cycles stay forbidden after the cycle")
            if "run:postponedq" in d:
                for x in LAST:
                    if x not in d:
                        self.report("phase", "missing:" + x, f, f.body, "postponed processes run without %s" % x)
            else:
                if self.known(pp, self.delta(pp, st), st) is not True and not st.ext.get("again"):
                    self.report("phase", "missing:postponed", f, f.body, "postponed processes do not run although no delta cycle follows")
                if not st.ext.get("limit"):
                    self.report("phase", "missing:limit", f, f.body, "the limit on delta cycles is not tested before another one")


# ------------------------------------------------------------------ marks and queues

FLAGS = {"fastqueued": None, "sigqueued": None, "pseudoqueued": None}
GLOBAL_MARK = ("fastqueued", "sigqueued", "pseudoqueued")
INIT = "initialisation"


class Touch(Base):
    fields = frozenset(["next_is_delta", "iteration", "now", "pending", "delayed", "postponed", "kind", "fastqueued", "sigqueued",
                        "pseudoqueued", "flags", "last_event", "event_delta"])

    fresh_pointers = True
    """Marks against queue insertions, one function at a time; a static
    function that leaves a difference is followed in its callers."""

    def __init__(self, sh, rep):
        super().__init__(sh)
        self.rep = rep
        self.open = {}
        self.bad = {}
        self.types = {}
        self.sites = {}
        self.tagtypes = {}
        self.kinds = {}
        self.also = ()
        self.pendbit = sh.flags.get("NET_F_PENDING")

    def inline(self, g):
        return g.name in self.open or g.name in self.also

    def report(self, rule, key, f, n, msg):
        self.bad.setdefault((rule, key), (f, n, msg))

    def bump(self, st, k, d):
        st = st.copy()
        st.ext[k] = max(-3, min(3, st.ext.get(k, 0) + d))
        return st

    def at_call(self, pp, f, e, nm, args, st):
        sh = self.sh
        if nm is None:
            if "cb" in st.ext and not st.ext.get("cleared") and not st.ext.get("done"):
                self.early(f, e, st)
            return None
        if nm in sh.push:
            return [self.pushed(pp, f, e, nm, args, st)]
        if nm == "heap_insert":
            h = field(args[0])
            if h == "eventq_heap" and len(args) > 2:
                t = args[2]
                if t is not None and t[0] == "op" and t[1] == "|" and t[3][0] == "c":
                    tag = t[3]
                    self.tagtypes.setdefault(tag[1], []).append((f, e, self.tagged(f, f.args(e)[2])))
                    self.sites.setdefault("heap", set()).add((f.name, e))
                    if len(tag) > 2 and self.is_proc(tag[2]):
                        st = self.bump(st, "dly", 1)
            elif h in ("driving_heap", "effective_heap") and len(args) > 2:
                k = args[1]
                self.sites.setdefault("rank", set()).add((f.name, e))
                self.rank(f, e, h, k)
                st = self.bump(st, "np", 1)
        elif nm == "heap_delete":
            st = self.bump(st, "undly", 1)
        elif nm in ("copy2", "memcpy", "memmove") and f.name in self.live:
            d = args[1 if nm == "copy2" else 0] if len(args) > 1 else None
            if d is not None and d[0] == "call" and d[1] == "nexus_effective":
                self.sites.setdefault("rec", set()).add((f.name, e))
                st = st.copy()
                st.ext["chg"] = True
                pp.opaque(f, e, nm, None, st)
                return [st]
        if "cb" in st.ext and not st.ext.get("cleared"):
            g = sh.byname.get(nm)
            w = self.effect(nm)
            if w is None and g is not None:
                w = pp.written(g)
                w = {"*"} if w is None else w
            # an inlined callee is looked at itself
            if not (g is not None and self.inline(g)) and w and ("*" in w or self.waits(st) & set(w)):
                if not nm.endswith("trace") and not f.macro(e):
                    self.early(f, e, st)
        return self.heapop(pp, f, e, nm, args, st)

    def waits(self, st):
        return {"pending"}

    def early(self, f, e, st):
        if not self.sh.wakeable(st.ext["cb"]):
            return          # not in any sensitivity list: nothing can queue it again meanwhile
        self.report("callback", st.ext["cb"], f, e, "%s runs other code before it takes its mark off" % st.ext["cb"])

    def is_proc(self, name):
        return "PROCESS" in name

    def tagged(self, f, a):
        """Static type of the pointer that was tagged into this argument."""
        v = f.var_of(a)
        src = [a]
        if v is not None:
            for n in f.walk():
                if f.kind(n) == "decl":
                    src += [i for w, i in f.pay(n) if w == v and i is not None and i >= 0]
        for s in src:
            for n in f.walk(s):
                if f.kind(n) == "decl":
                    for w, i in f.pay(n):
                        if f.varname(w) == "__p":
                            return f.vartype(w)
        return None

    def rank(self, f, e, h, k):
        c = coef(k)
        want = 1 if h == "driving_heap" else -1
        if c is not None and c != want:
            self.report("rank", h, f, e, "the %s is ordered %s rank" % (h.replace("_", " "), "by" if c == 1 else "against"))

    def postponed(self, pp, arg, st):
        """Is the wakeable of this object postponed? (known along this path)"""
        if arg is None:
            return None
        L = arg[1] if arg[0] == "&" else ("*", arg)
        if L[0] == "*" and L[1][0] == "ctr":
            W = ("*", L[1][3]) if L[1][3][0] != "&" else L[1][3][1]
        else:
            W = ("m", L, "wakeable")
        v = pp.load(("m", W, "postponed"), st)
        r = pp.nz(v)
        if r is None:
            return None
        if r[0] == "const":
            return r[1]
        k = pp.known(r[0], st)
        return None if k is None else k == r[1]

    def kind_of(self, pp, arg, st):
        if arg is None or arg[0] != "ctr":
            return None
        W = ("*", arg[3]) if arg[3][0] != "&" else arg[3][1]
        v = pp.load(("m", W, "kind"), st)
        for k, t in st.facts.items():
            if t and k[0] == "==" and k[1] == v:
                return k[2][1]
        r = pp.known(("nz", v), st)
        return 0 if r is False else None

    def pushed(self, pp, f, e, nm, args, st):
        sh = self.sh
        qi, fi, ai = sh.push[nm]
        q, cb, arg = args[qi], args[fi], args[ai]
        self.sites.setdefault("push", set()).add((f.name, e))
        if cb is None or cb[0] != "fn" or cb[1] not in sh.cbs:
            if cb is not None and cb[0] == "u":
                return st
            self.report("types", "%s:callback" % f.name, f, e, "the function that is queued cannot be determined")
            return st
        name = cb[1]
        want = sh.record(sh.cbs[name])
        have = f.type(f.skip_casts(f.args(e)[ai]))
        self.sites.setdefault("type", set()).add((f.name, e))
        if arg is not None and arg[0] in ("ctr",):
            have = arg[1]
        if sh.record(have) not in (want, "void"):
            self.report("types", "%s:%s" % (f.name, name), f, e, "%s takes a %s but is queued with a %s" % (name, want, sh.record(have)))
        qn = field(q)
        if sh.wakeable(name):
            st = self.bump(st, "w", 1)
            k = self.kind_of(pp, arg, st)
            if k is not None:
                self.kinds.setdefault(k, set()).add((want, f, e))
            if qn in ("procq", "postponedq") or qn is None:
                self.sites.setdefault("queue", set()).add((f.name, e))
                p = self.postponed(pp, arg, st)
                if self.never_postponed(want):
                    p = p if p is not None else False
                key = "%s:%s" % ("due" if st.ext.get("due") else f.name, name)
                if qn is None:
                    self.report("queue", key, f, e, "%s is put on a queue that does not depend on whether it is postponed" % name)
                elif p is None:
                    self.report("queue", key, f, e, "%s is put on %s without regard to whether it is postponed" % (name, qn))
                elif p != (qn == "postponedq"):
                    if not (self.never_postponed(want) and qn == "postponedq" and False):
                        self.report("queue", key, f, e, "%s work is put on %s" % ("postponed" if p else "other", qn))
            elif qn == "implicitq" and "implicit" not in want:
                self.report("queue", "%s:%s" % (f.name, name), f, e, "%s is put on the queue of implicit signals" % name)
            if sh.record(want) == "rt_proc_t" and qn in ("procq", "postponedq"):
                st = st.copy()
                st.ext["undelay"] = st.ext.get("undelay", 0) or 1
                st.ext["proc"] = (f.name, e)
        else:
            want_q = {"driverq", "delta_driverq"}
            if qn is not None and qn not in want_q:
                self.report("queue", "%s:%s" % (f.name, name), f, e, "%s is put on %s" % (name, qn))
        fls = self.clears(name)
        st = st.copy()
        for i, fl in enumerate(fls):
            st.ext["p:" + fl] = True
            if i == 0:
                st.ext["q:" + fl] = True
        if qn in ("delta_procq", "delta_driverq"):
            self.sites.setdefault("delta", set()).add((f.name, e))
            st = st.copy()
            st.ext["delta"] = name
        return st

    def clears(self, cb):
        """The queued marks a callback takes off, its own first."""
        c = self.types.get(cb)
        if c is None:
            c = []
            seen, work = set(), [(self.sh.byname[cb], 0)]
            while work:
                g, d = work.pop(0)
                if g.name in seen:
                    continue
                seen.add(g.name)
                for n in g.walk():
                    if g.kind(n) == "asg":
                        t = g.unwrap(g.kids(n)[0])
                        if t >= 0 and g.kind(t) == "mem" and g.pay(t)[0] in GLOBAL_MARK and g.const(g.kids(n)[1]) == 0 \
                                and g.pay(t)[0] not in c:
                            c.append(g.pay(t)[0])
                    if g.kind(n) == "call" and g.callee(n) in self.sh.byname and d < 2:
                        work.append((self.sh.byname[g.callee(n)], d + 1))
            self.types[cb] = c
        return c

    def never_postponed(self, rec):
        """Every object of this type is created with postponed = false (or zeroed)."""
        c = self.types.get(("np", rec))
        if c is None:
            c = True
            for f in self.sh.fns:
                for n in f.walk():
                    if f.kind(n) != "asg":
                        continue
                    t = f.unwrap(f.kids(n)[0])
                    if t >= 0 and f.kind(t) == "mem" and f.pay(t)[0] == "postponed" and f.const(f.kids(n)[1]) != 0:
                        b = f.unwrap(f.kids(t)[0])
                        o = f.type(f.unwrap(f.kids(b)[0])) if b >= 0 and f.kind(b) == "mem" else ""
                        if self.sh.record(o) in (rec, "rt_wakeable_t", ""):
                            c = False
            self.types[("np", rec)] = c
        return c

    def at_write(self, pp, f, e, P, v, st):
        t = f.unwrap(f.kids(e)[0])
        fld = P[2] if P is not None and P[0] == "m" else f.pay(t)[0] if t >= 0 and f.kind(t) == "mem" else None
        if fld is None or P is None and fld not in ("last_event", "event_delta"):
            return None
        c = v[1] if v is not None and v[0] == "c" else None
        if fld == "pending" and P[1][0] in ("m", "*"):
            owner_wk = P[1][0] == "m" and P[1][2] == "wakeable" or True
            if not self.is_wakeable(f, e):
                return None
            if c is None:
                return None
            if c:
                self.sites.setdefault("mark", set()).add((f.name, e))
                return self.bump(st, "w", -1)
            if "cb" in st.ext:
                st = st.copy()
                st.ext["cleared"] = True
                return st
            return None
        if fld == "delayed" and c is not None and self.is_wakeable(f, e):
            if c:
                self.sites.setdefault("mark", set()).add((f.name, e))
                return self.bump(st, "dly", -1)
            if not self.fresh(f, e):
                st = self.bump(st, "undly", -1)
                st = st.copy()
                st.ext["undelay"] = 2
            return st
        if fld in ("last_event", "event_delta"):
            self.sites.setdefault("rec", set()).add((f.name, e))
            st = st.copy()
            st.ext["r:" + fld] = self.when(v, "now" if fld == "last_event" else "iteration")
            if fld == "last_event" and st.ext["r:" + fld] == "current":
                st.ext.pop("chg", None)
            return st
        if fld == "next_is_delta" and c:
            st = st.copy()
            st.ext["nd"] = True
            return st
        if fld in GLOBAL_MARK and c is not None:
            self.sites.setdefault("mark", set()).add((f.name, e))
            if c:
                st = st.copy()
                st.ext["m:" + fld] = True
                return st
            if "cb" in st.ext:
                st = st.copy()
                st.ext["cleared:" + fld] = True
            return st
        if fld == "flags" and v is not None and v[0] == "op" and self.pendbit is not None:
            if v[1] == "|" and ("c", self.pendbit) in [x[:2] for x in v[2:] if x is not None]:
                self.sites.setdefault("mark", set()).add((f.name, e))
                return self.bump(st, "np", -1)
        if fld == "kind" and self.is_wakeable(f, e) and c is not None:
            t = f.unwrap(f.kids(e)[0])
            b = f.unwrap(f.kids(t)[0])
            if b >= 0 and f.kind(b) == "mem":
                self.kindof.setdefault(c, set()).add(self.sh.record(f.type(f.unwrap(f.kids(b)[0]))))
        return None

    def when(self, v, fld):
        """What a recorded time or delta stands for."""
        if v is None:
            return "unknown"
        if v[0] == "c":
            return "never"
        if v[0] == "s" and v[1][0] == "m":
            return "current" if v[1] == mf(fld) else "copied" if v[1][2] in ("last_event", "event_delta") else "unknown"
        return "unknown"

    kindof = {}
    live = frozenset()

    def is_wakeable(self, f, e):
        t = f.unwrap(f.kids(e)[0])
        return t >= 0 and f.kind(t) == "mem" and ("wakeable" in (f.pay(t)[1] or "") or "wakeable" in f.type(f.unwrap(f.kids(t)[0])))

    def fresh(self, f, e):
        """Initialisation of an object created in this function."""
        t = f.unwrap(f.kids(e)[0])
        b = f.unwrap(f.kids(t)[0])
        while b >= 0 and f.kind(b) == "mem":
            b = f.unwrap(f.kids(b)[0])
        v = f.var_of(b)
        if v is None:
            return False
        for n in f.walk():
            prs = []
            if f.kind(n) == "decl":
                prs = [i for w, i in f.pay(n) if w == v and i is not None and i >= 0]
            elif f.kind(n) == "asg" and f.var_of(f.kids(n)[0]) == v:
                prs = [f.kids(n)[1]]
            for i in prs:
                for x in f.walk(i):
                    if f.kind(x) == "call" and f.callee(x) and ("alloc" in f.callee(x)):
                        return True
        return False

    def at_edge(self, pp, f, blk, kind, st):
        # taking an EVENT_PROCESS off the heap ends its delay
        lab = None
        if isinstance(kind, tuple) and kind[0] == "case" and blk.cond is not None:
            tgt = None
            for t, k in f.cfg.edges(blk.id):
                if k == kind:
                    tgt = f.cfg.blocks[t].label
            if tgt is not None and f.kind(tgt) == "case" and f.kind(f.kids(tgt)[0]) == "enum" and self.is_proc(f.pay(f.kids(tgt)[0])) \
                    and "EVENT" in f.pay(f.kids(tgt)[0]):
                st = self.bump(st, "undly", 1)
                st.ext["due"] = True
        if kind in (True, False) and blk.cond is not None and blk.cond >= 0:
            for x, t in core.atoms(f, blk.cond, kind):
                if f.kind(x) == "mem" and t and f.pay(x)[0] in GLOBAL_MARK + ("next_is_delta",):
                    st = st.copy()
                    st.ext["nd" if f.pay(x)[0] == "next_is_delta" else "joined"] = True
            for x in f.walk(blk.cond):
                if f.kind(x) == "mem" and f.pay(x)[0] == "delayed":
                    a = core.atoms(f, blk.cond, kind)
                    if any(n == x and not t for n, t in a):
                        st = st.copy()
                        st.ext["undelay"] = 2
        return st

    def grown(self, f, e, P, v, st):
        return v if P is not None and P[0] == "m" and v is not None and paths.size(v) < 10 else None

    def verdict(self, pp, f, outs):
        """What does not add up at the exits of f."""
        bad = {}
        for ret, st in outs:
            x = st.ext
            for k, (rule, what) in BALANCED.items():
                if x.get(k, 0):
                    bad.setdefault((rule, "%s:%s" % (f.name, k)), (f, f.body, "%s: not every path %s" % (f.name, what)))
            for fl in GLOBAL_MARK:
                if x.get("q:" + fl) and not x.get("m:" + fl):
                    bad.setdefault(("once", "%s:%s" % (f.name, fl)), (f, f.body, "%s: something is queued without being marked %s" % (f.name, fl)))
                elif x.get("m:" + fl) and not x.get("p:" + fl) and not self.joined(st, fl):
                    bad.setdefault(("once", "%s:%s" % (f.name, fl)), (f, f.body, "%s: something is marked %s without being queued" % (f.name, fl)))
            a, b = x.get("r:last_event"), x.get("r:event_delta")
            if (a or b) and (a != b or a == "unknown"):
                bad.setdefault(("record", f.name), (f, f.body, "%s: the time of an event is %s but its delta is %s" % (f.name, a or "not recorded", b or "not recorded")))
            if x.get("chg"):
                bad.setdefault(("record", "%s:changed" % f.name), (f, f.body, "%s: an effective value changes without an event being recorded" % f.name))
            if x.get("delta"):
                if not x.get("nd") and not x.get("joined"):
                    bad.setdefault(("delta", "%s:%s" % (f.name, x["delta"])), (f, f.body, "%s is put on a delta queue but the next cycle need not be a delta cycle" % x["delta"]))
            if x.get("undelay") == 1:
                bad.setdefault(("once", "%s:still-delayed" % f.name), (f, f.body, "%s: a process is queued while it may still be on the event heap" % f.name))
            if "cb" in x:
                cb = x["cb"]
                fl = self.clears(cb)
                if self.sh.wakeable(cb):
                    if not x.get("cleared"):
                        bad.setdefault(("callback", cb), (f, f.body, "%s does not take its mark off on every path" % cb))
                elif fl and not x.get("cleared:" + fl[0]):
                    bad.setdefault(("callback", cb), (f, f.body, "%s does not take its mark off on every path" % cb))
        return bad

    def joined(self, st, fl):
        """Along this path something was found to be queued already."""
        return st.ext.get("joined")


def coef(k):
    """Sign with which a rank enters a key."""
    if k is None:
        return None
    if k[0] == "s" and k[1][0] == "m" and k[1][2] == "rank":
        return 1
    if k[0] == "u":
        return None
    if k[0] == "call" and "rank" in k[1]:
        return 1
    if k[0] == "op" and k[1] in ("+", "-") and len(k) == 4:
        a, b = coef(k[2]), coef(k[3])
        if k[1] == "-" and b is not None:
            b = -b
        return a if b is None else b if a is None else a + b
    return None


def touching(sh):
    """Functions that queue something or change a mark."""
    out = {}
    for f in sh.fns:
        if f.name in sh.push or f.name in sh.run or f.name in sh.swap:
            continue
        why = set()
        for n in f.walk():
            k = f.kind(n)
            if k == "call" and (f.callee(n) in sh.push or f.callee(n) in ("heap_insert", "heap_delete", "heap_extract_min")):
                why.add("queue")
            elif k == "asg":
                t = f.unwrap(f.kids(n)[0])
                if t >= 0 and f.kind(t) == "mem":
                    if f.pay(t)[0] in ("pending", "delayed", "next_is_delta", "last_event", "event_delta") + GLOBAL_MARK:
                        why.add(f.pay(t)[0])
                    elif f.pay(t)[0] == "flags" and any(f.macro(x) == "NET_F_PENDING" for x in f.walk(n)):
                        why.add("flags")
        if why:
            out[f.name] = why
    return out


def order(sh, names):
    """Callees first."""
    out, mark = [], set()

    def visit(nm):
        if nm in mark:
            return
        mark.add(nm)
        f = sh.byname[nm]
        for c in f.calls():
            if f.callee(c) in names:
                visit(f.callee(c))
        out.append(nm)
    for nm in sorted(names):
        visit(nm)
    return out


def used_as_value(sh, prog):
    taken = set()
    for f in sh.fns:
        for n in f.walk():
            if f.kind(n) == "fn":
                p = f.parent(n)
                while p >= 0 and f.kind(p) == "cast":
                    p = f.parent(p)
                if not (p >= 0 and f.kind(p) == "call" and f.unwrap(f.kids(p)[0]) == n):
                    taken.add(f.pay(n))
    return taken


BALANCED = {"w": ("once", "is queued as often as it is marked pending"),
            "dly": ("once", "is put on the event heap as often as it is marked delayed"),
            "undly": ("once", "is taken off the event heap as often as the mark is removed"),
            "np": ("once", "is put on the driving or effective heap as often as it is flagged")}


def run(prog, rep):
    rep.rule("phase", "the steps of a cycle happen in the standard's order on every path")
    rep.rule("drain", "a heap is left only when nothing due is on it")
    rep.rule("time", "time and delta count advance together, to the earliest event")
    rep.rule("events", "every kind of event put on the heap is handled when it is taken off")
    rep.rule("once", "on every path things are queued exactly as often as they are marked")
    rep.rule("callback", "what runs from a queue takes its mark off, before anything can queue it again")
    rep.rule("queue", "postponed work goes on the postponed queue and other work does not")
    rep.rule("delta", "whatever is put on a delta queue makes the next cycle a delta cycle")
    rep.rule("types", "queued objects, tagged pointers and kinds are taken for what they are")
    rep.rule("record", "an event records its time and delta together; a changed value is announced")
    rep.rule("rank", "the driving heap is ordered by rank, the effective heap against it")
    rep.rule("delay", "schedule requests are checked for negative delays, postponed deltas and rejection limits")
    sh = Shape(prog)
    if not (sh.push and sh.run and sh.swap and sh.glob):
        raise AnalysisError("the queue functions of %s were not found" % M)
    root = prog.fn("model_cycle", M)
    tags = set()
    for f in sh.fns:
        for n in f.walk():
            if f.kind(n) == "bin" and f.pay(n) == "|" and f.macro(n) and "tag_pointer" in f.macro(n):
                for z in f.walk(f.kids(n)[1]):
                    if f.kind(z) == "enum" and f.pay(z).startswith("EVENT_"):
                        tags.add((f.pay(z), f.const(z)))
    rep.count("event kinds", len(tags))
    cy = Cycle(sh, rep)
    cy.tags = tags
    pp = paths.Paths(prog, cy)
    outs = pp.run(root, [None] * len(root.params), paths.St())
    cy.judge(pp, root, outs)
    for ev, (f, n) in sorted(cy.seen.items()):
        rep.ok("phase", f.loc(n))
    rep.count("cycle paths", len(outs))
    for h in HEAPS:
        if not any(r == "drain" and k == h for r, k in cy.bad):
            rep.ok("drain", root.loc(root.body))
    for t in sorted(tags):
        rep.ok("events", root.loc(root.body))
    rep.ok("time", root.loc(root.body))
    marks(prog, sh, rep, cy.bad)
    for (rule, key), (f, n, msg) in sorted(cy.bad.items()):
        rep.bad(rule, key, f.loc(n), msg)
    if set(cy.bad) - {("queue", "due:async_run_process")}:
        return
    rep.require("phase", 15)
    rep.require("once", 15)
    rep.require("callback", 8)
    rep.require("queue", 5)
    rep.require("types", 12)
    rep.require("delay", 8)
    rep.require("record", 3)
    rep.require("rank", 4)
    rep.require("delta", 5)


# Registered only while a process is reset; reset_process then schedules that
# process with no delay, so the next cycle is a delta cycle.
INITIAL = {"x_transfer_signal:async_transfer_signal": "process reset"}


def reach(sh, roots):
    out, work = set(), list(roots)
    while work:
        nm = work.pop()
        if nm in out or nm not in sh.byname:
            continue
        out.add(nm)
        f = sh.byname[nm]
        work += [f.callee(c) for c in f.calls() if f.callee(c)]
    return out


def marks(prog, sh, rep, allbad):
    names = touching(sh)
    taken = used_as_value(sh, prog)
    callers = {}
    for f in sh.fns:
        for c in f.calls():
            if f.callee(c) in names:
                callers.setdefault(f.callee(c), set()).add(f.name)
    for g in sh.cbs:
        names.setdefault(g, set()).add("callback")
    opened = {}
    pend = sh.flags.get("NET_F_PENDING")
    done = set()
    nfn = 0
    tagtypes, kinds, kindof = {}, {}, {}
    for f in sh.fns:
        for n in f.walk():
            if f.kind(n) == "asg" and f.const(f.kids(n)[1]) is not None:
                t = f.unwrap(f.kids(n)[0])
                if t >= 0 and f.kind(t) == "mem" and f.pay(t)[0] == "kind" and "wakeable" in (f.pay(t)[1] or ""):
                    b = f.unwrap(f.kids(t)[0])
                    if b >= 0 and f.kind(b) == "mem":
                        kindof.setdefault(f.const(f.kids(n)[1]), set()).add(sh.record(f.type(f.unwrap(f.kids(b)[0]))))
    recs = recorders(sh)
    live = reach(sh, ["model_cycle"] + sorted(sh.cbs))
    init = reach(sh, ["model_reset"]) - live
    for nm in sorted(live):
        f = sh.byname[nm]
        if any(f.callee(c) in ("copy2", "memcpy", "memmove") for c in f.calls()) and any(f.calls("nexus_effective")):
            names.setdefault(nm, set()).add("effective")
    todo = order(sh, names)
    while todo:
        nm = todo.pop(0)
        f = sh.byname[nm]
        t = Touch(sh, rep)
        t.open = opened
        t.kindof = kindof
        t.tagtypes = tagtypes
        t.kinds = kinds
        t.name = nm
        t.live = live
        pp = paths.Paths(prog, t)
        st = paths.St()
        if nm in sh.cbs:
            st.ext["cb"] = nm
            t.also = unmarks(sh, nm)
        if "effective" in names.get(nm, ()):
            t.also = set(t.also) | recs
        args = [("u", nm, f.varname(v[0] if isinstance(v, (list, tuple)) else v)) for v in f.params]
        try:
            outs = pp.run(f, args, st)
        except AnalysisError:
            # following a helper that leaves a difference went nowhere: the difference stands
            blame = [g for g in opened if g in reach(sh, [nm]) and opened[g]]
            if not blame:
                raise
            for g in blame:
                for k, v in opened[g].items():
                    allbad.setdefault(k, v)
            continue
        nfn += 1
        probs = t.verdict(pp, f, outs)
        for rule, s in t.sites.items():
            r = {"push": "once", "mark": "once", "queue": "queue", "delta": "delta", "type": "types", "rank": "rank",
                 "heap": "once", "rec": "record", "cb": "callback"}[rule]
            for x in s:
                if (r, x) not in done:
                    done.add((r, x))
                    rep.ok(r, sh.byname[x[0]].loc(x[1]) if isinstance(x[1], int) else f.loc(f.body))
        local = f.static and nm not in taken and nm not in sh.cbs and callers.get(nm)
        if (probs or t.bad) and local:
            opened[nm] = dict(probs)
            opened[nm].update(t.bad)
            if DEBUG: print("open", nm, [(k, v[2]) for k, v in list(probs.items()) + list(t.bad.items())])
            for c in sorted(callers[nm]):
                if c not in todo:
                    names.setdefault(c, set())
                    todo.append(c)
            continue
        for k, v in t.bad.items():
            allbad.setdefault(k, v)
        for (rule, key), v in probs.items():
            if nm in init or nm == "model_reset":
                continue            # everything is marked and queued afresh
            if rule == "delta" and INITIAL.get(key):
                continue
            allbad.setdefault((rule, key), v)
        if nm in sh.cbs:
            rep.ok("callback", f.loc(f.body))
    rep.count("functions followed", nfn)
    pairs(prog, sh, rep, allbad, tagtypes, kinds, kindof)
    flags(sh, rep, allbad, live)
    delays(prog, sh, rep, allbad)


def unmarks(sh, cb):
    """Functions below a callback in which marks are taken off."""
    own = {g for g in reach(sh, [cb]) if any(
        sh.byname[g].kind(n) == "asg" and sh.byname[g].const(sh.byname[g].kids(n)[1]) == 0
        and sh.byname[g].kind(sh.byname[g].unwrap(sh.byname[g].kids(n)[0])) == "mem"
        and sh.byname[g].pay(sh.byname[g].unwrap(sh.byname[g].kids(n)[0]))[0] in GLOBAL_MARK + ("pending",) for n in sh.byname[g].walk())}
    near = callees(sh, cb, 1)
    out = own & near
    return out | {g for g in near if callees(sh, g, 0) & out and g not in sh.push}


def recorders(sh):
    """Functions that record an event, and small helpers they use for it."""
    out = set()
    for f in sh.fns:
        if f.static and any(f.kind(n) == "asg" and f.kind(f.unwrap(f.kids(n)[0])) == "mem" and f.pay(f.unwrap(f.kids(n)[0]))[0] == "last_event" for n in f.walk()):
            out.add(f.name)
    for f in sh.fns:
        if f.static and callees(sh, f.name, 0) & out and len(list(f.calls())) < 12:
            out.add(f.name)
    return out


def pairs(prog, sh, rep, allbad, tagtypes, kinds, kindof):
    """Objects come back from the heap and from wakeable lists as what they went in as."""
    # a tag is always put on the same type, and taken off as that type
    for tag, uses in sorted(tagtypes.items()):
        ts = {sh.record(t) for _, _, t in uses if t}
        for f, e, t in uses:
            if t:
                rep.ok("types", f.loc(e))
        if len(ts) > 1:
            f, e, _ = uses[0]
            allbad.setdefault(("types", "tag:%d" % tag), (f, e, "event tag %d is put on %s" % (tag, " and ".join(sorted(ts)))))
        for f in sh.fns:
            for b in f.cfg.blocks.values():
                for s, k in f.cfg.edges(b.id):
                    if not (isinstance(k, tuple) and k[0] == "case" and k[1] == [tag]):
                        continue
                    lab = f.cfg.blocks[s].label
                    if lab is None or f.kind(lab) != "case" or f.kind(f.kids(lab)[0]) != "enum" or not f.pay(f.kids(lab)[0]).startswith("EVENT_"):
                        continue
                    for n in f.walk(lab):
                        t = untagged(f, n)
                        if t and ts:
                            rep.ok("types", f.loc(n))
                            if sh.record(t) not in ts:
                                allbad.setdefault(("types", "untag:%s:%d" % (f.name, tag)), (f, n, "%s is taken off the event heap as %s" % ("/".join(sorted(ts)), sh.record(t))))
    for k, uses in sorted(kinds.items()):
        own = kindof.get(k)
        for rec, f, e in sorted(uses, key=lambda u: (u[0], u[1].name, u[2])):
            if own:
                rep.ok("types", f.loc(e))
                if sh.record(rec) not in own:
                    allbad.setdefault(("types", "kind:%s:%d" % (f.name, k)), (f, e, "a wakeable of kind %d belongs to %s but is taken for %s" % (k, "/".join(sorted(own)), sh.record(rec))))
    for k, own in sorted(kindof.items()):
        if len(own) > 1:
            f = sh.byname["model_cycle"]
            allbad.setdefault(("types", "kind:%d" % k), (f, f.body, "kind %d is given to %s" % (k, " and ".join(sorted(own)))))


def untagged(f, n):
    """Type a declaration or cast gives an untagged pointer."""
    if f.kind(n) != "cast" or not f.type(n).endswith("*") or f.type(n) in ("void *", "const void *"):
        return None
    m = f.macro(n)
    if m and "untag_pointer" in m:
        return f.type(n)
    return None


def flags(sh, rep, allbad, live):
    """What comes off the driving or effective heap during a cycle loses its mark."""
    bit = sh.flags.get("NET_F_PENDING")

    def clears(f, seen):
        if f.name in seen:
            return False
        seen.add(f.name)
        for n in f.walk():
            if f.kind(n) == "asg" and any(f.macro(x) == "NET_F_PENDING" for x in f.walk(f.kids(n)[1])) and (
                    f.pay(n) == "&=" or any(f.kind(x) == "un" and f.pay(x) == "~" for x in f.walk(f.kids(n)[1]))):
                return True
        return any(clears(sh.byname[f.callee(c)], seen) for c in f.calls() if f.callee(c) in sh.byname)

    for nm in sorted(live):
        f = sh.byname[nm]
        for c in f.calls("heap_extract_min"):
            hs = {f.pay(x)[0] for x in f.walk(f.args(c)[0]) if f.kind(x) == "mem"} & {"driving_heap", "effective_heap"}
            v = None
            p = f.parent(c)
            while p >= 0 and f.kind(p) in ("cast", "paren"):
                p = f.parent(p)
            given = p if p >= 0 and f.kind(p) == "call" and p != c else None
            if not hs:
                continue
            if p >= 0 and f.kind(p) == "decl":
                v = [w for w, i in f.pay(p) if i is not None and i >= 0 and c in set(f.walk(i))]
                v = v[0] if v else None
            elif p >= 0 and f.kind(p) == "asg":
                v = f.var_of(f.kids(p)[0])
            ok = False
            for d in f.calls():
                g = sh.byname.get(f.callee(d) or "")
                if g is not None and (d == given or v is not None and any(f.var_of(a) == v for a in f.args(d))) and clears(g, set()):
                    ok = True
            for n in f.walk():
                if f.kind(n) == "asg" and any(f.macro(x) == "NET_F_PENDING" for x in f.walk(f.kids(n)[1])) and f.pay(n) in ("&=", "="):
                    ok = True
            rep.ok("once", f.loc(c))
            if not ok:
                allbad.setdefault(("once", "%s:%s" % (f.name, "+".join(sorted(hs)))), (f, c, "what is taken off the %s keeps its mark" % "+".join(sorted(hs))))


# ------------------------------------------------------------------ schedule requests

class Requests(Base):
    """Paths from a schedule request of the running design to the event queues."""
    fields = frozenset(["postponed", "after", "delay", "reject", "can_create_delta"])

    def __init__(self, sh, shape):
        super().__init__(sh)
        self.delay, self.reject, self.force, self.follow, self.held = shape
        self.bad, self.seen = {}, []
        self.root = None

    def relevant(self, atom):
        return paths.mentions(atom, lambda t: t[0] == "u" or t[0] == "m" and t[-1] in self.fields)

    def pinned(self, atom):
        return paths.mentions(atom, lambda t: t[0] == "u" and len(t) > 1 and t[1] == self.root or t[0] == "m" and t[-1] == "postponed")

    def effect(self, nm):
        return () if nm not in self.sh.byname else None

    def stable(self, nm):
        return nm.startswith("get_active") or nm.startswith("get_model")

    def inline(self, g):
        return g.static and g.name in self.follow

    def not_postponed(self, st):
        for k, t in st.facts.items():
            if k[0] == "nz" and not t and paths.mentions(k[1], lambda x: x[0] == "m" and x[-1] == "postponed"):
                return True
        return False

    def check(self, pp, f, e, d, r, st):
        self.seen.append((f, e))
        root = self.root
        if d is not None and d[0] == "s" and d[1][0] == "m" and d[1][2] in self.held:
            return
        if d is None:
            self.bad.setdefault(("delay", "%s:unknown" % root), (f, e, "%s schedules with a delay that cannot be determined" % root))
            return
        q = pp.rel("<", d, ("c", 0))
        neg = q[1] if q[0] == "const" else (pp.known(q[0], st) == q[1] if pp.known(q[0], st) is not None else None)
        if neg is not False:
            self.bad.setdefault(("delay", "%s:negative" % root), (f, e, "%s schedules without a check for a negative delay" % root))
        z = pp.nz(d)
        nz = z[1] if z[0] == "const" else (pp.known(z[0], st) == z[1] if pp.known(z[0], st) is not None else None)
        if nz is not True and not self.not_postponed(st):
            self.bad.setdefault(("delay", "%s:postponed" % root), (f, e, "%s lets a postponed process cause a delta cycle" % root))
        if r is not None and not (r[0] == "c" and r[1] == 0):
            if r[0] == "s" and r[1][0] == "m" and r[1][2] in self.held:
                return
            q = pp.rel("<", d, r)
            k = pp.known(q[0], st) if q[0] != "const" else None
            if k is None or k == q[1]:
                self.bad.setdefault(("delay", "%s:reject" % root), (f, e, "%s schedules without a check of the pulse rejection limit against the delay" % root))

    def at_call(self, pp, f, e, nm, args, st):
        if nm in self.delay and nm not in self.follow:
            r = args[self.reject[nm]] if nm in self.reject else None
            self.check(pp, f, e, args[self.delay[nm]], r, st)
            return None
        if nm in self.force:
            self.seen.append((f, e))
            if not self.not_postponed(st):
                self.bad.setdefault(("delay", "%s:postponed" % self.root), (f, e, "%s lets a postponed process cause a delta cycle" % self.root))
        return None

    def at_write(self, pp, f, e, P, v, st):
        t = f.unwrap(f.kids(e)[0])
        if t >= 0 and f.kind(t) == "mem" and f.pay(t)[0] == self.held_delay and v is not None and v[0] == "u":
            self.check(pp, f, e, v, self.other(f, st), st)
        return None

    def other(self, f, st):
        return self.rejects.get(self.root)


def delays(prog, sh, rep, allbad):
    """Find the functions that schedule after a delay, and judge the requests."""
    delay, reject = {}, {}
    changed = True
    while changed:
        changed = False
        for f in sh.fns:
            if not f.static:
                continue
            for i, v in enumerate(f.params):
                for n in f.walk():
                    k = f.kind(n)
                    if k == "bin" and f.pay(n) == "+" and f.name not in delay:
                        a, b = f.kids(n)
                        for x, y in ((a, b), (b, a)):
                            x = f.unwrap(x)
                            if x >= 0 and f.kind(x) == "mem" and f.pay(x)[0] == "now" and f.var_of(y) == v:
                                delay[f.name] = i
                                changed = True
                    elif k == "bin" and f.pay(n) == "-" and f.name not in reject:
                        a, b = f.kids(n)
                        if f.var_of(b) == v and f.varkind(v) == "p" and f.var_of(a) is not None and f.var_of(a) in f.params and f.vartype(v) == f.vartype(f.var_of(a)) == "uint64_t":
                            reject[f.name] = i
                            changed = True
                    elif k == "call" and f.callee(n) in delay and f.name not in delay:
                        a = f.args(n)
                        if f.var_of(a[delay[f.callee(n)]]) == v:
                            delay[f.name] = i
                            changed = True
                    if k == "call" and f.callee(n) in reject and f.name not in reject:
                        a = f.args(n)
                        if f.var_of(a[reject[f.callee(n)]]) == v:
                            reject[f.name] = i
                            changed = True
    force = {}
    for f in sh.fns:
        if not f.static and not f.name.startswith("x_") and any(f.kind(n) == "mem" and f.pay(n)[0] == "can_create_delta" for n in f.walk()) \
                and any(f.callee(c) in sh.byname and (f.callee(c) in sh.push or any(g in sh.push for g in callees(sh, f.callee(c)))) for c in f.calls()):
            force[f.name] = f
    # fields in which a request is kept until its callback runs
    held = set()
    for cb in sh.cbs:
        f = sh.byname[cb]
        for c in f.calls():
            for tab in (delay, reject):
                if f.callee(c) in tab:
                    a = f.unwrap(f.args(c)[tab[f.callee(c)]])
                    if a >= 0 and f.kind(a) == "mem":
                        held.add((tab is delay, f.pay(a)[0]))
    sinks = set(delay) | set(force)
    roots, follow = [], set()
    for f in sh.fns:
        if not f.static:
            continue
        # helpers that refuse a request, and helpers that call them
        if loops(f):
            continue
        if stops(prog, f) or any(f.callee(c) in sh.byname and sh.byname[f.callee(c)].static and not loops(sh.byname[f.callee(c)])
                                 and stops(prog, sh.byname[f.callee(c)]) for c in f.calls()):
            follow.add(f.name)
    holders = {h for d, h in held}
    for f in sh.fns:
        if f.static or not f.name.startswith("x_"):
            continue
        names = {f.callee(c) for c in f.calls()}
        down = set(names)
        for g in names & follow:
            down |= callees(sh, g)
        if down & sinks or any(f.kind(n) == "asg" and f.kind(f.unwrap(f.kids(n)[0])) == "mem" and f.pay(f.unwrap(f.kids(n)[0]))[0] in holders
                               and not f.kind(f.unwrap(f.kids(n)[1])) in ("lit",) for n in f.walk()):
            roots.append(f)
    rep.count("schedule requests", len(roots))
    for f in roots:
        c = Requests(sh, (delay, reject, force, follow, holders))
        c.root = f.name
        c.held_delay = next((h for d, h in held if d), None)
        rj = [h for d, h in held if not d]
        c.rejects = {}
        for n in f.walk():
            if f.kind(n) == "asg":
                t = f.unwrap(f.kids(n)[0])
                if t >= 0 and f.kind(t) == "mem" and f.pay(t)[0] in rj and f.var_of(f.kids(n)[1]) is not None:
                    c.rejects[f.name] = ("u", f.name, f.varname(f.var_of(f.kids(n)[1])))
        pp = paths.Paths(prog, c)
        pp.run(f, [("u", f.name, f.varname(v)) for v in f.params], paths.St())
        for g, e in c.seen:
            rep.ok("delay", g.loc(e))
        for k, v in c.bad.items():
            allbad.setdefault(k, v)
    # the procedural interface asks whether a delta cycle may be created
    for f in prog.fns:
        if f.file == M or f.cfg_raw is None or not any(f.callee(c) in force for c in f.calls()):
            continue
        guardfn = {g.name for g in sh.fns if not g.static and any(g.kind(n) == "mem" and g.pay(n)[0] == "can_create_delta" for n in g.walk())}
        asked = asks(f, guardfn)
        for c in f.calls():
            if f.callee(c) in force:
                rep.ok("delay", f.loc(c))
                if not asked(c):
                    allbad.setdefault(("delay", "%s:%s" % (f.name, f.callee(c))), (f, c, "%s is called without asking whether a delta cycle may be created" % f.callee(c)))


def asks(f, guardfn):
    """Is a guard known to have answered yes where this node is evaluated?"""
    def transfer(st, e, b, i):
        return st

    def edge(st, blk, s, kind):
        blk = f.cfg.blocks[blk] if isinstance(blk, int) else blk
        if kind in (True, False) and blk.cond is not None and blk.cond >= 0:
            for x, t in core.atoms(f, blk.cond, kind):
                x = f.unwrap(x)
                if x >= 0 and f.kind(x) == "var":
                    x = once(f, f.pay(x))
                if t and x >= 0 and f.kind(x) == "call" and f.callee(x) in guardfn:
                    return True
        return st
    ins = core.forward(f, False, transfer, edge, lambda a, b: a and b)

    def q(n):
        w = f.cfg.where(n)
        return bool(w is not None and ins.get(w[0]))
    return q


def once(f, v):
    """The value of a variable that is only ever given one."""
    ds = []
    for n in f.walk():
        if f.kind(n) == "decl":
            ds += [i for w, i in f.pay(n) if w == v and i is not None and i >= 0]
        elif f.kind(n) == "asg" and f.var_of(f.kids(n)[0]) == v or f.kind(n) == "un" and f.pay(n) == "&" and f.var_of(f.kids(n)[0]) == v:
            ds.append(f.kids(n)[-1])
    return f.unwrap(ds[0]) if len(ds) == 1 else -1


def callees(sh, nm, depth=2):
    out, work = set(), [(nm, 0)]
    while work:
        g, d = work.pop()
        f = sh.byname.get(g)
        if f is None or d > depth:
            continue
        for c in f.calls():
            h = f.callee(c)
            if h and h not in out:
                out.add(h)
                work.append((h, d + 1))
    return out


def loops(f):
    return any(f.kind(n) in ("for", "while", "do") for n in f.walk()) or f.cfg_raw is None


def stops(prog, f):
    return any(prog.call_noreturn(f, c) and f.callee(c) != "__assert_fail" for c in f.calls())


