"""P16: data shared between threads is accessed atomically, in order, or under its lock."""
import core
import shared
from facts import AnalysisError
from shared import ORDER

WANT = None
EXPLAIN = """
(order) A place through which one thread hands data to another (table slots, table pointers, function state and entry, queue
indices, flags) is written with at least release ordering, and read with at least acquire ordering except by its only writer
or where the value is only compared.
(plain) A place that is accessed atomically anywhere is accessed without an atomic operation only while its object is still
private, in the functions that tear it down, under its lock, or at the listed places.
(publish) Once a freshly built object is stored into such a place (also by a called function) it is not modified plainly.
(payload) The data a slot's tag announces is written before the tag is stored with release ordering, on every path; and only
by the thread that claimed the slot.
(claim) After a successful compare-and-swap that marks something busy, every path stores the final mark or does not return.
(cas) The result of a compare-and-swap is used.
(reclaim) What was replaced in such a place is handed to the deferred free, after the replacement was stored, never freed at
once.
(guard) Data that belongs to a lock is accessed only with the lock held (a must analysis; entry sets are the intersection
over the callers), while its object is private, or by the listed functions.
(held) Where a function asserts that a lock is held, every caller holds it.
(balance) Locks are released on every path, and never released when not held.
(lock-order) The order in which locks are taken while others are held has no cycle, and no lock is taken while it is held.
(wait) A loop that waits for another thread reads something atomically each time round.
(sleep) A condition is waited for with its mutex held and a shared predicate tested since it was locked.
"""
ASSUME = ["a place is a field of a structure type or a variable: different objects of one type are not told apart",
          "suspended threads (stop_world callbacks) and single-threaded phases (construction, destruction) are as listed",
          "data without any lock or atomic access in the sources is private to a thread"]

F = lambda r, p: ("f", r, p)
G = lambda file, n: ("g", file, n, "")
T = "src/thread.c"
# places that hand data over: {place: functions that may read it relaxed, with the reason}
PUB = {
    F("chash_t", "tab"): {}, F("chash_t", "resizing"): {}, F("chash_slot_t", "tagged_key"): {},
    F("entryq_t", "comp.bits"): {}, F("entryq_t", "wptr.bits"): {},
    F("func_array_t", "items"): {}, F("ident_tab_t", "slots"): {}, F("jit_func_t", "linktab"): {},
    F("jit_func_t", "entry"): {}, F("jit_func_t", "state"): {}, F("jit_t", "funcs"): {}, F("jit_t", "shutdown"): {},
    F("jit_t", "interrupt"): {}, F("mir_context_t", "typetab"): {}, F("mir_context_t", "resizing"): {},
    F("threadq_t", "age.bits"): {"estimate_depth": "a guess, checked again by pop_top"},
    F("threadq_t", "bot"): {"estimate_depth": "a guess, checked again by pop_top"},
    F("type_slot_t", "bits"): {}, F("barrier_t", "passed"): {},
    G("src/ident.c", "table"): {}, G("src/ident.c", "resizing"): {},
    G(T, "threads"): {}, G(T, "stop_callback"): {}, G(T, "stop_arg"): {}, G("src/util.c", "ctrl_c_fn"): {},
    G(T, "should_stop"): {"worker_thread": "tested again under wakelock or in the next round",
                          "create_workers": "only avoids starting more threads"},
    G(T, "async_pending"): {},
    ("c", "jit_get_privdata_ptr", ""): {},
}
HEAP = "heaps are used by one thread at a time; the size is read for statistics"
# plain accesses: {place: {function: reason}}
PLAIN = {
    F("jit_func_t", "entry"): {
        "jit_internal_entry": "replaced by an equivalent entry point", "jit_vhpi_entry": "replaced by an equivalent entry point",
        "jit_ghdl_entry": "replaced by an equivalent entry point", "jit_bind_foreign": "bound before the design runs",
        "__synopsys_failure": "", "cgen_op_call": "the value is only used to name the symbol"},
    F("jit_func_t", "linktab"): {"jit_free_func": "torn down", "irgen_op_link_var": "written by this thread, which is compiling it",
                                 "jit_pack_fill": "the function is marked as being compiled by this thread"},
    F("func_array_t", "items"): {"jit_free": "torn down", "jit_install": "copied under the lock", "jit_reset": "under the lock"},
    F("jit_t", "funcs"): {"jit_free": "torn down", "jit_install": "under the lock"},
    F("jit_t", "exit_status"): {"jit_exit_status": "read after the threads that set it were joined"},
    F("chash_t", "tab"): {"chash_free": "torn down"},
    F("mir_context_t", "typetab"): {"mir_context_free": "torn down"},
    F("type_tab_t", "next_id"): {"mir_try_build_type": "a guess that decides when to grow"},
    F("nvc_thread_t", "kind"): {f: "fixed when the thread is created" for f in
                                ("thread_join", "workq_new", "workq_free", "create_workers", "workq_start", "workq_drain")},
    F("code_cache_t", "used"): {"code_cache_free": "torn down"},
    F("rt_model_t", "force_stop"): {"*": "the simulation thread's flag, set from a signal handler"},
    F("heap_t", "size"): {"*": HEAP},
    G("src/rt/assert.c", "counts"): {"get_vhdl_assert_count": "statistics", "clear_vhdl_assert": "statistics",
                                     "get_vhdl_assert_exit_status": "statistics"},
    G("src/rt/mspace.c", "stack_limit"): {"mspace_alloc": "the slot of this thread", "mspace_gc": "the slot of this thread"},
    **{F("lock_stats_t", x): {"*": "statistics of this thread"} for x in
       ("locks", "contended", "parks", "spins", "spurious", "retries")},
    G(T, "threads"): {"thread_wrapper": "in an assertion, the slot of this thread"},
    F("workq_stats_t", "comp"): {"*": "statistics of this thread"},
    F("workq_stats_t", "steals"): {"*": "statistics of this thread"},
    F("workq_stats_t", "wakes"): {"*": "statistics of this thread"},
}
MS, CC, JL, GQ = F("mspace_t", "lock"), F("code_cache_t", "lock"), F("jit_t", "lock"), ("g", T, "globalq", "lock")
GQ2 = F("globalq_t", "lock")
TEAR = {"mspace_destroy": "torn down", "code_cache_free": "torn down", "jit_free": "torn down"}
CRASH = {"code_cache_unwinder": "while the process is crashing", "code_fault_handler": "while the process is crashing"}
# data that belongs to a lock: {place: (lock, {function: reason})}
GUARD = {}
for p in ("free_list", "free_mptrs", "free_tlabs", "live_tlabs", "roots", "num_cycles", "total_gc"):
    GUARD[F("mspace_t", p)] = (MS, TEAR)
for p in ("next", "ptr", "size"):
    GUARD[F("free_list_t", p)] = (MS, TEAR)
for p in ("next", "prev"):
    GUARD[F("linked_tlab_t", p)] = (MS, {**TEAR, "tlab_on_list": "only in assertions"})
    GUARD[F("mptr_t", p)] = (MS, TEAR)
GUARD[F("code_cache_t", "spans")] = (CC, {**TEAR, **CRASH})
GUARD[F("code_cache_t", "globalfree")] = (CC, {})
GUARD[F("code_cache_t", "perfmap")] = (CC, TEAR)
GUARD[F("code_page_t", "next")] = (CC, TEAR)
GUARD[F("code_span_t", "next")] = (CC, {**TEAR, **CRASH})
GUARD[F("jit_t", "next_handle")] = (JL, TEAR)
GUARD[F("jit_pack_t", "zstd")] = (F("jit_pack_t", "zlock"), {"jit_pack_new": "private", "jit_pack_free": "torn down"})
GUARD[F("mir_context_t", "pool")] = (F("mir_context_t", "pool_mtx"), {"mir_context_free": "torn down"})
for p in ("max", "tasks"):
    GUARD[F("globalq_t", p)] = (GQ2, {})
for p in ("wptr", "rptr"):
    GUARD[F("globalq_t", p)] = (GQ2, {"globalq_unlocked_empty": "a guess, tested again under the lock"})
GUARD[F("loc_file_t", "abs_str")] = (G("src/diag.c", "diag_lock"), {})
for p in ("mt", "mti"):
    GUARD[G("src/rt/random.c", p)] = (G("src/rt/random.c", "lock"), {})
# functions that must run under a lock (they are not re-entrant)
CALLS = {"mir_import": (JL, {"cgen_find_dependencies": "single-threaded", "mir_import": "recursion under the caller's lock",
                             "jit_call_thunk": "thunks are made by the elaborating thread"}),
         "_Unwind_Backtrace": (("g", "debug_capture", "lock", ""), {})}
LAZYLOCK = {("workq_start", "globalq_put"): "taken in the first round that puts a task and held until the loop ends"}
ASYM = {"stop_world": "returns with the lock held", "start_world": "releases the lock of stop_world",
        "workq_start": "taken in the loop, released if something was put"}
NOTAKE = {("mir_annotate", "mir_get_shape", "lock"): "the enclosing unit was built before: nothing is built and dumped from here"}
CASUNUSED = {"nvc_lock": "setting the parked bit may fail: the lock is tested again by lock_park_cb"}
CLAIMS = {
    F("jit_func_t", "state"): ("JIT_FUNC_COMPILING", {F("jit_func_t", "state")}),
    F("chash_slot_t", "tagged_key"): ("BUSY_MARKER", {F("chash_slot_t", "tagged_key")}),
    F("type_slot_t", "bits"): ("BUSY_MARKER", {F("type_slot_t", "bits")}),
    F("chash_t", "resizing"): (None, {F("chash_t", "tab")}),
    F("mir_context_t", "resizing"): (None, {F("mir_context_t", "typetab")}),
    G("src/ident.c", "resizing"): (None, {G("src/ident.c", "table")}),
}
PAYLOAD = {F("chash_slot_t", "value"): F("chash_slot_t", "tagged_key"),
           F("type_tab_t", "types"): F("type_slot_t", "bits"),
           F("entryq_t", "tasks"): F("entryq_t", "wptr.bits"),
           F("threadq_t", "tasks"): F("threadq_t", "bot")}
FREES = {"chash_free", "jit_free", "mir_context_free", "jit_free_func", "ident_intern_free"}
WAITS = {"spin_wait", "thread_sleep", "progressive_backoff", "sched_yield"}


class Conc:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.sh = shared.Shared(prog)
        self.L = shared.Locks(prog, self.sh, gives={"stop_world": G(T, "stop_lock")}, takes={"start_world": G(T, "stop_lock")})
        self.places = {}
        self.at = {}
        for f, n, op, o, key, base in self.sh.atom:
            k = self.sh.gkey(f, key)
            if k is None:
                k = self.call_place(f, n)
            if k is not None:
                self.places.setdefault(k, []).append((f, n, op, o))
                self.at[(f, n)] = (k, op, o)

    def call_place(self, f, n):
        p = f.unwrap(f.kids(n)[0])
        while f.kind(p) in ("cast", "paren"):
            p = f.unwrap(f.kids(p)[0])
        if f.kind(p) == "call" and f.callee(p):
            return ("c", f.callee(p), "")
        return None

    # ---- helpers ----------------------------------------------------------------------------------------------
    def allowed(self, f, table, seen=None):
        """f, or every caller of the static function f, is in the table."""
        if "*" in table or f.name in table:
            return True
        seen = seen or set()
        if f in seen or not f.static or f.name in self.L.addr:
            return False
        callers = [g for g, c in self.L.callers.get(f, [])]
        return bool(callers) and all(self.allowed(g, table, seen | {f}) for g in callers)

    def stores(self, k):
        return [(f, n, op, o) for f, n, op, o in self.places.get(k, []) if "load" not in op]

    def names_of(self, f, e, depth=0):
        """Enumerators mentioned in e, through the initialisers of locals."""
        out = set()
        for x in f.walk(e):
            if f.kind(x) == "enum":
                out.add(f.pay(x))
            elif f.kind(x) == "var" and depth < 3:
                v = f.var_of(x)
                self.sh.alias(f, x)
                for i in f.cache["alias"].get(v, []):
                    if i is not None:
                        out |= self.names_of(f, i, depth + 1)
        return out

    def site(self, f, n):
        return "%s %s" % (f.loc(n), f.name)

    def pl(self, k):
        return "%s.%s" % (k[1], k[2]) if k[0] == "f" else "%s()" % k[1] if k[0] == "c" else "*" + k[1] if k[0] == "p" else k[2] + ("." + k[3] if k[3] else "")

    def run(self):
        self.order()
        self.plain()
        self.publish()
        self.copied()
        self.payload()
        self.claims()
        self.cas()
        self.reclaim()
        self.guard()
        self.locks()
        self.waits()

    # ---- (order) ------------------------------------------------------------------------------------------------
    def compared_only(self, f, n):
        e, q = n, f.parent(n)
        while q >= 0 and f.kind(q) in ("paren", "cast", "stmtexpr", "compound", "block"):
            e, q = q, f.parent(q)
        return q >= 0 and f.kind(q) == "bin" and f.pay(q) in ("==", "!=") or q >= 0 and f.kind(q) == "un" and f.pay(q) == "!"

    def order(self):
        for k, relax in PUB.items():
            acc = self.places.get(k, [])
            if not acc:
                raise AnalysisError("no atomic access of %s" % self.pl(k))
            writers = {f for f, n, op, o in acc if "load" not in op}
            for f, n, op, o in acc:
                if "load" in op:
                    good = o in (2, 4, 5) or f in writers and self.writer_only(f, n, k, writers) or self.compared_only(f, n) \
                        or self.allowed(f, relax)
                    self.rep.check("order", good, "%s:%s:load" % (self.pl(k), f.name), self.site(f, n),
                                   "%s is read with %s ordering: the data it announces may not be visible yet"
                                   % (self.pl(k), ORDER.get(o)))
                else:
                    ok = o in (3, 4, 5) or k == F("jit_t", "interrupt")
                    self.rep.check("order", ok, "%s:%s:%s" % (self.pl(k), f.name, op), self.site(f, n),
                                   "%s is written with %s ordering: another thread can see it before the data it announces"
                                   % (self.pl(k), ORDER.get(o)))
        once = [(f, n, op, o) for k, a in self.places.items() if k[0] == "g" and k[2] == "__done" for f, n, op, o in a]
        for f, n, op, o in once:
            self.rep.check("order", o in (2, 4, 5) if "load" in op else o in (3, 4, 5), "once:%s:%s" % (f.name, op),
                           self.site(f, n), "the flag of a one-time initialisation is accessed with %s ordering" % ORDER.get(o))

    def writer_only(self, f, n, k, writers):
        """A relaxed read by the thread that owns the place (it stores to it in the same function)."""
        return k in (F("entryq_t", "comp.bits"), F("entryq_t", "wptr.bits"), F("threadq_t", "bot"), F("barrier_t", "passed"),
                     G(T, "threads"))

    # ---- (plain) ------------------------------------------------------------------------------------------------
    def plain(self):
        want = {k for k in self.places if k[0] in ("f", "g") and not (k[0] == "g" and (k[2] == "__done"))}
        for f, n, k, base, mode in self.sh.plain(want):
            if mode == "addr":
                self.rep.ok("plain", self.site(f, n))     # where the pointer is used is looked at there
                continue
            good = self.sh.fresh_at(f, base, n) or self.allowed(f, PLAIN.get(k, {})) or k in GUARD
            self.rep.check("plain", good, "%s:%s:%s" % (self.pl(k), f.name, mode), self.site(f, n),
                           "%s is shared between threads and accessed atomically elsewhere, but this %s is plain" % (self.pl(k), mode))

    # ---- (publish) ----------------------------------------------------------------------------------------------
    def publishers(self):
        """{function: {param index}} : the function stores that parameter into a shared place."""
        out = {}
        changed = True
        while changed:
            changed = False
            for f in self.prog.fns:
                for n, v in self.pub_sites(f, out):
                    if f.varkind(v) == "p" and v in f.params:
                        i = f.params.index(v)
                        if i not in out.setdefault(f, set()):
                            out[f].add(i)
                            changed = True
        return out

    def pub_sites(self, f, summary):
        """(node, variable) : the variable's object becomes visible to other threads at node."""
        for n in f.cache.setdefault("atoms", [x for x in f.walk() if f.kind(x) == "atomic"]):
            r = self.at.get((f, n))
            if r is None or r[0] not in PUB:
                continue
            ks = f.kids(n)
            val = ks[2] if "store" in r[1] or "exchange_n" == r[1].replace("atomic_", "") else ks[4] if "compare" in r[1] else None
            if val is None:
                continue
            v = self.ptr_var(f, val)
            if v is not None:
                yield n, v
        for c in f.calls():
            g = self.prog.callee(f, c)
            idx = summary.get(g, set()) if g is not None else set()
            for i in idx:
                if i < len(f.args(c)):
                    v = self.ptr_var(f, f.args(c)[i])
                    if v is not None:
                        yield c, v

    def ptr_var(self, f, e):
        e = f.unwrap(e)
        while f.kind(e) in ("paren", "cast"):
            e = f.unwrap(f.kids(e)[0])
        if f.kind(e) == "var" and f.type(e).rstrip().endswith("*") or f.kind(e) == "var" and f.type(e) == "ident_t":
            return f.var_of(e)
        return None

    PUBOK = {("thread_new", "id"): "the slot number is only known afterwards; the thread has not started",
             ("jit_assemble", None): "the assembler of the unit tests runs before there are other threads"}

    def publish(self):
        summ = self.publishers()
        for f in self.prog.fns:
            sites = list(self.pub_sites(f, summ))
            if not sites:
                continue
            for n, v in sites:
                if f.varkind(v) != "l":
                    continue
                var = next((x for x in f.walk() if f.kind(x) == "var" and f.var_of(x) == v), None)
                if var is None or not self.sh.fresh_at(f, var, n):
                    continue
                bad = self.later_writes(f, n, v)
                bad = [b for b in bad if not {(f.name, f.pay(b)[0]), (f.name, None)} & set(self.PUBOK)]
                self.rep.check("publish", not bad, "%s:%s" % (f.name, f.varname(v)), self.site(f, bad[0] if bad else n),
                               "%s was made visible to other threads at %s and is modified afterwards"
                               % (f.txt(bad[0]) if bad else "", f.loc(n)))

    def copied(self):
        """A replacement is not filled from what it replaces after it took its place."""
        for k in PUB:
            if k in CLAIMS and CLAIMS[k][0] is None:
                continue
            for f, n, op, o in self.places.get(k, []):
                if "load" in op:
                    continue
                ks = f.kids(n)
                val = ks[2] if "store" in op or op.replace("atomic_", "") == "exchange_n" else ks[4] if "compare" in op else None
                v = self.ptr_var(f, val) if val is not None else None
                at = self.elem_of(f, n)
                if v is None or at is None or f.varkind(v) not in ("l", "p"):
                    continue
                late = []
                seen, todo = set(), [(at[0], at[1] + 1)]
                while todo:
                    b, i = todo.pop()
                    for e in f.cfg.blocks[b].elems[i:]:
                        if not isinstance(e, int) or f.kind(e) != "call":
                            continue
                        vs = [self.ptr_var(f, a) for a in f.args(e)]
                        if v in vs and any(w is not None and w != v and f.vartype(w) == f.vartype(v) for w in vs):
                            g = self.prog.callee(f, e)
                            if g is not None and self.writes_param(g, vs.index(v)):
                                late.append(e)
                    for s2, kind in f.cfg.edges(b):
                        if s2 not in seen and s2 != at[0]:
                            seen.add(s2)
                            todo.append((s2, 0))
                self.rep.check("publish", not late, "%s:%s:copy" % (f.name, f.varname(v)), self.site(f, late[0] if late else n),
                               "%s took the place of %s at %s and is filled afterwards by '%s'"
                               % (f.varname(v), self.pl(k), f.loc(n), f.txt(late[0]) if late else ""))

    def writes_param(self, g, i):
        if i >= len(g.params):
            return False
        p = g.params[i]

        def root(e):
            e = g.unwrap(e)
            while e >= 0 and g.kind(e) in ("mem", "idx", "paren", "cast", "un"):
                e = g.unwrap(g.kids(e)[0])
            return e >= 0 and g.kind(e) == "var" and g.var_of(e) == p
        for x in g.walk():
            if g.kind(x) == "asg" and g.kind(g.unwrap(g.kids(x)[0])) in ("mem", "idx", "un") and root(g.kids(x)[0]):
                return True
            if g.kind(x) == "atomic" and (g, x) in self.at and "load" not in self.at[(g, x)][1] and root(g.kids(x)[0]):
                return True
        return False

    def later_writes(self, f, n, v):
        writes = {}
        for x in f.walk():
            if f.kind(x) == "asg":
                l = f.unwrap(f.kids(x)[0])
                e = l
                while f.kind(e) in ("idx", "paren") or f.kind(e) == "mem" and not f.pay(e)[2]:
                    e = f.unwrap(f.kids(e)[0])
                if f.kind(e) == "mem" and f.pay(e)[2]:
                    b = f.unwrap(f.kids(e)[0])
                    if f.kind(b) == "var" and f.var_of(b) == v:
                        writes[x] = e
        if not writes:
            return []
        at = self.elem_of(f, n)
        if at is None:
            return []
        rebind = {x for x in f.walk() if f.kind(x) == "asg" and f.kind(f.unwrap(f.kids(x)[0])) == "var"
                  and f.var_of(f.unwrap(f.kids(x)[0])) == v}
        rebind |= {x for x in f.walk() if f.kind(x) == "decl" and any(w == v for w, _ in f.pay(x))}
        found = []
        seen = set()
        todo = [(at[0], at[1] + 1, self.success_only(f, n))]
        while todo:
            b, i, cas = todo.pop()
            blk = f.cfg.blocks[b]
            stop = False
            for e in blk.elems[i:]:
                if not isinstance(e, int):
                    continue
                if e in writes:
                    found.append(writes[e])
                if e in rebind:
                    stop = True
                    break
            if stop:
                continue
            for s, kind in f.cfg.edges(b):
                if cas is not None and blk.cond is not None and cas in f.walk(blk.cond):
                    if kind in (True, False) and not self.cas_true(f, cas, blk.cond, kind):
                        continue
                if s not in seen:
                    seen.add(s)
                    todo.append((s, 0, cas))
        return found

    def success_only(self, f, n):
        return n if f.kind(n) == "atomic" and "compare" in (self.at[(f, n)][1]) else None

    def elem_of(self, f, n):
        """(block, index) of the CFG element that contains n."""
        m = f.cache.get("elemat")
        if m is None:
            m = {}
            for b, blk in f.cfg.blocks.items():
                for i, e in enumerate(blk.elems):
                    if isinstance(e, int):
                        m.setdefault(e, (b, i))
            f.cache["elemat"] = m
        while n >= 0:
            if n in m:
                return m[n]
            n = f.parent(n)
        return None

    def cas_true(self, f, cas, cond, val):
        """On this edge of cond the compare-and-swap succeeded (may be unknown: True)."""
        for a, v in core.atoms(f, cond, val):
            if a == cas or cas in set(f.walk(a)):
                if f.kind(a) in ("atomic", "stmtexpr", "compound", "paren", "cast") or a == cas:
                    return bool(v)
        return True

    # ---- (payload) ------------------------------------------------------------------------------------------------
    def payload(self):
        want = set(PAYLOAD)
        for f, n, k, base, mode in self.sh.plain(want):
            target = n
            q = f.parent(n)
            while q >= 0 and f.kind(q) in ("paren", "cast") or q >= 0 and f.kind(q) == "idx" and f.unwrap(f.kids(q)[0]) == n \
                    or q >= 0 and f.kind(q) == "mem" and not f.pay(q)[2]:
                n, q = q, f.parent(q)
            if not (q >= 0 and f.kind(q) == "asg" and f.kids(q)[0] == n):
                continue
            if self.sh.fresh(f, base):
                continue
            tag = PAYLOAD[k]
            at = self.elem_of(f, q)
            ok = at is not None and self.followed(f, at, {tag}, self.owner(f, target))
            self.rep.check("payload", ok, "%s:%s" % (self.pl(k), f.name), self.site(f, q),
                           "%s is written but %s is not stored afterwards on every path" % (self.pl(k), self.pl(tag)))

    def owner(self, f, n):
        """Text of the object whose field a member expression is."""
        n = f.unwrap(n)
        while n >= 0 and f.kind(n) in ("paren", "cast", "idx", "un"):
            n = f.unwrap(f.kids(n)[0])
        return f.txt(f.unwrap(f.kids(n)[0])) if n >= 0 and f.kind(n) == "mem" else None

    def followed(self, f, at, keys, owner=None):
        """Every path from here performs an atomic store of one of the places (or does not return)."""
        rel = {n for (g, n), (k, op, o) in self.at.items() if g is f and k in keys and "load" not in op}
        same = {n for n in rel if owner is not None and self.owner(f, f.kids(n)[0]) == owner}
        if same and all("compare" not in self.at[(f, n)][1] for n in same):
            rel = same
        seen = set()
        todo = [(at[0], at[1] + 1)]
        while todo:
            b, i = todo.pop()
            blk = f.cfg.blocks[b]
            hit = False
            for e in blk.elems[i:]:
                if not isinstance(e, int):
                    continue
                if e in rel:
                    hit = True
                    break
                if f.kind(e) == "call":
                    g = self.prog.callee(f, e)
                    if g is not None and self.releases(g, frozenset(keys)) == "always" or self.prog.call_noreturn(f, e):
                        hit = True
                        break
            if hit or blk.noret:
                continue
            if b == f.cfg.exit:
                return False
            for s, kind in f.cfg.edges(b):
                if s not in seen:
                    seen.add(s)
                    todo.append((s, 0))
        return True

    # ---- (claim) ------------------------------------------------------------------------------------------------
    def releases(self, g, keys):
        """'always' | 'true' (whenever it returns non-zero) | None: g stores the final mark."""
        m = self.__dict__.setdefault("_rel", {})
        if (g, keys) in m:
            return m[(g, keys)]
        m[(g, keys)] = None
        res = self.flow(g, keys, 1, None)
        exits, rets = res
        if exits is not None and exits == 0:
            m[(g, keys)] = "always"
        else:
            good = bool(rets)
            for n, st in rets:
                ks = g.kids(n)
                if not ks:
                    good = False
                    continue
                if g.const(ks[0]) == 0 or st == 0:
                    continue
                if any(v and g.kind(a) == "call" and self.prog.callee(g, a) is not None
                       and self.releases(self.prog.callee(g, a), keys) in ("true", "always")
                       for a, v in core.atoms(g, ks[0], True)):
                    continue
                good = False
            m[(g, keys)] = "true" if good and any(g.const(g.kids(n)[0]) != 0 for n, _ in rets) else None
        return m[(g, keys)]

    def flow(self, f, keys, start, claims):
        """Claim state through f: 1 = a mark is outstanding.  Returns (state at exit or None, [(return, state)])."""
        rel = {n for (g, n), (k, op, o) in self.at.items() if g is f and k in keys and "load" not in op}
        if claims:
            rel = rel - claims
        rets = {}
        jumps = []

        def transfer(st, e, b, i):
            if not isinstance(e, int):
                return st
            if e in rel:
                return 0
            if f.kind(e) == "call":
                g = self.prog.callee(f, e)
                if g is not None and g is not f and self.releases(g, keys) == "always":
                    return 0
                if self.prog.call_noreturn(f, e):
                    if st and claims and g is not None and g in self.jumpers():
                        jumps.append(e)
                    return None
            if f.kind(e) == "ret":
                rets[e] = max(rets.get(e, 0), st)
            return st

        def edge(st, b, s, kind):
            blk = f.cfg.blocks[b]
            if blk.cond is not None and kind in (True, False):
                for a, v in core.atoms(f, blk.cond, kind):
                    if claims and v:
                        for c in claims:
                            if a == c or f.kind(a) in ("stmtexpr", "compound") and c in set(f.walk(a)):
                                st = 1
                    if v and f.kind(a) == "call":
                        g = self.prog.callee(f, a)
                        if g is not None and self.releases(g, keys) == "true":
                            st = 0
            return st
        ins = core.forward(f, start, transfer, edge, max)
        if claims:
            self.jumps = jumps
        return ins.get(f.cfg.exit), list(rets.items())

    def jumpers(self):
        """Functions that abandon what runs by a long jump instead of ending the process."""
        if "_jump" not in self.__dict__:
            out = {f for f in self.prog.fns if any("longjmp" in (f.callee(c) or "") for c in f.calls())}
            grow = True
            while grow:
                grow = False
                for f in self.prog.fns:
                    if f in out or not (f.noreturn or f.cfg_raw is not None and any(
                            self.prog.callee(f, c) in out and self.prog.call_noreturn(f, c) for c in f.calls())):
                        continue
                    if any(self.prog.callee(f, c) in out for c in f.calls()) and (f.noreturn or not f.static):
                        out.add(f)
                        grow = True
            self._jump = {f for f in out if f.name not in ("fatal", "fatal_trace", "fatal_at")}
        return self._jump

    def claims(self):
        for k, (mark, keys) in CLAIMS.items():
            found = 0
            for f, n, op, o in self.places.get(k, []):
                if "compare" not in op:
                    continue
                new = f.kids(n)[4]
                if mark and mark not in self.names_of(f, new):
                    continue
                found += 1
                cl = {n}
                ex, rets = self.flow(f, frozenset(keys), 0, cl)
                self.rep.check("claim", not ex, "%s:%s" % (self.pl(k), f.name), self.site(f, n),
                               "after %s was claimed here a path returns without storing the final mark: other threads wait for ever"
                               % self.pl(k))
                for e in self.jumps[:1]:
                    self.rep.bad("claim", "%s:%s:jump" % (self.pl(k), f.name), self.site(f, e),
                                 "after %s was claimed here '%s' abandons the work without storing the final mark: others wait for ever"
                                 % (self.pl(k), f.txt(e)))
            if not found:
                raise AnalysisError("no claim of %s found" % self.pl(k))

    # ---- (cas) ------------------------------------------------------------------------------------------------
    def cas(self):
        for (f, n), (k, op, o) in self.at.items():
            if "compare" not in op:
                continue
            self.rep.check("cas", self.used(f, n) or f.name in CASUNUSED, "%s:%s" % (self.pl(k), f.name), self.site(f, n),
                           "whether the compare-and-swap of %s succeeded is not looked at" % self.pl(k))
        for f, n, op, o, key, base in self.sh.atom:
            if "compare" in op and (f, n) not in self.at:
                self.rep.check("cas", self.used(f, n) or f.name in CASUNUSED, "%s:%s" % (f.txt(f.kids(n)[0]), f.name), self.site(f, n),
                               "whether the compare-and-swap succeeded is not looked at")

    def used(self, f, n):
        e, q = n, f.parent(n)
        while q >= 0:
            k = f.kind(q)
            if k in ("paren", "cast"):
                if k == "cast" and f.type(q) == "void":
                    return False
                e, q = q, f.parent(q)
            elif k in ("compound", "block"):
                g = f.parent(q)
                if g >= 0 and f.kind(g) == "stmtexpr" and [x for x in f.kids(q) if x >= 0][-1] == e:
                    e, q = g, f.parent(g)
                    continue
                return False
            elif k == "stmtexpr":
                e, q = q, f.parent(q)
            elif k in ("if", "while", "for", "do", "label", "case"):
                ks = f.kids(q)
                return True if k in ("if", "while", "do") and e in self.conds(f) else e in self.conds(f)
            else:
                return True
        return False

    def conds(self, f):
        c = f.cache.get("conds")
        if c is None:
            c = set()
            for b in f.cfg.blocks.values():
                if b.cond is not None:
                    for x in f.walk(b.cond):
                        c.add(x)
                    c.add(b.cond)
                    e = b.cond
                    while f.parent(e) >= 0 and f.kind(f.parent(e)) in ("paren", "cast", "un", "bin"):
                        e = f.parent(e)
                        c.add(e)
            f.cache["conds"] = c
        return c

    # ---- (reclaim) ------------------------------------------------------------------------------------------------
    def reclaim(self):
        ptrs = {k for k in PUB if k[0] in ("f", "g")}
        for f in self.prog.fns:
            frees = [c for c in f.calls() if f.callee(c) in ("free", "async_free") and f.args(c)]
            if not frees or f.name in FREES:
                continue
            loads = self.replaced(f, ptrs)
            for c in frees:
                a = f.unwrap(f.args(c)[0])
                while f.kind(a) in ("paren", "cast"):
                    a = f.unwrap(f.kids(a)[0])
                if f.kind(a) != "var" or f.var_of(a) not in loads:
                    continue
                k = loads[f.var_of(a)]
                if f.callee(c) == "free":
                    self.rep.bad("reclaim", "%s:%s" % (self.pl(k), f.name), self.site(f, c),
                                 "what %s held is freed at once: other threads may still use it" % self.pl(k))
                else:
                    at = self.elem_of(f, c)
                    self.rep.check("reclaim", self.preceded(f, at, k), "%s:%s" % (self.pl(k), f.name), self.site(f, c),
                                   "what %s held is given up before its replacement was stored" % self.pl(k))

    def replaced(self, f, ptrs):
        """Variables that hold what a shared place held: loaded from it, or the expected value of its compare-and-swap."""
        out = {}
        self.sh.alias(f, next((x for x in f.walk() if f.kind(x) == "var"), 0)) if any(f.kind(x) == "var" for x in f.walk()) else None
        for v, inits in (f.cache.get("alias") or {}).items():
            for i in inits:
                if i is None:
                    continue
                i = f.unwrap(i)
                while f.kind(i) in ("paren", "cast"):
                    i = f.unwrap(f.kids(i)[0])
                if f.kind(i) == "atomic" and (f, i) in self.at and "load" in self.at[(f, i)][1] and self.at[(f, i)][0] in ptrs:
                    out[v] = self.at[(f, i)][0]
                elif f.kind(i) in ("mem", "var"):
                    k = self.sh.gkey(f, self.sh.place(f, i)[0])
                    if k in ptrs:
                        out[v] = k
        for (g, n), (k, op, o) in self.at.items():
            if g is f and "compare" in op and k in ptrs:
                # the expected value: initialiser of __cmp
                e = f.unwrap(f.kids(n)[2])
                if f.kind(e) == "un" and f.pay(e) == "&":
                    w = f.unwrap(f.kids(e)[0])
                    if f.kind(w) == "var":
                        for i in (f.cache.get("alias") or {}).get(f.var_of(w), []):
                            if i is not None:
                                i = f.unwrap(i)
                                while f.kind(i) in ("paren", "cast"):
                                    i = f.unwrap(f.kids(i)[0])
                                if f.kind(i) == "var" and f.type(i).rstrip().endswith("*"):
                                    out[f.var_of(i)] = k
        return out

    def preceded(self, f, at, k):
        dom = f.cfg.dominates
        for (g, n), (kk, op, o) in self.at.items():
            if g is f and "load" not in op and self.swaps(kk, k):
                w = self.elem_of(f, n)
                if w and (w[0] == at[0] and w[1] < at[1] or w[0] != at[0] and dom(w[0], at[0])):
                    return True
        return False

    def swaps(self, kk, k):
        return kk == k or kk[0] == k[0] and kk[1] == k[1] and {kk[2], k[2]} <= {"tab", "typetab", "resizing", "table"} and kk[2] != "resizing"

    # ---- (guard, held, balance, lock-order) --------------------------------------------------------------------------
    def inst(self, lock):
        """globalq.lock and globalq_t.lock are the same lock."""
        return GQ2 if lock == GQ else lock

    def held(self, f, n):
        return {self.inst(x) for x in self.L.held(f, n)}

    def guard(self):
        num = {}
        for f, n, k, base, mode in self.sh.plain(set(GUARD)):
            lock, table = GUARD[k]
            num[k] = num.get(k, 0) + 1
            if self.inst(lock) in self.held(f, n) or self.sh.fresh_at(f, base, n) or self.allowed(f, table) or self.private_call(f, base):
                self.rep.ok("guard", self.site(f, n))
            else:
                self.rep.bad("guard", "%s:%s" % (self.pl(k), f.name), self.site(f, n),
                             "%s is accessed without holding %s" % (self.pl(k), self.pl(lock)))
        for k in GUARD:
            if not num.get(k):
                raise AnalysisError("no access of %s found" % self.pl(k))
        for name, (lock, table) in CALLS.items():
            cnt = 0
            for f in self.prog.fns:
                for c in f.calls(name):
                    cnt += 1
                    self.rep.check("guard", self.inst(lock) in self.held(f, c) or self.allowed(f, table),
                                   "%s:%s" % (name, f.name), self.site(f, c), "%s is called without holding %s" % (name, self.pl(lock)))
            if not cnt:
                raise AnalysisError("no call of %s" % name)

    def private_call(self, f, base):
        """f is only called with a fresh object here."""
        e = f.unwrap(base)
        while f.kind(e) in ("mem", "idx", "paren", "cast"):
            e = f.unwrap(f.kids(e)[0])
        if f.kind(e) != "var" or f.var_of(e) not in f.params or not f.static or f.name in self.L.addr:
            return False
        i = f.params.index(f.var_of(e))
        calls = [(g, c) for g in self.prog.fns for c in g.calls(f.name) if self.prog.callee(g, c) is f]
        return bool(calls) and all(i < len(g.args(c)) and self.sh.fresh(g, g.args(c)[i]) for g, c in calls)

    def asserted(self, f):
        return {self.inst(self.L.key(f, f.args(c)[0])) for c in f.calls("assert_lock_held") if f.args(c)}

    def locks(self):
        acq = {}      # function -> locks it may take
        direct = {}
        for f in self.prog.fns:
            s = set()
            for c in f.calls("nvc_lock"):
                k = self.L.key(f, f.args(c)[0])
                if k is not None:
                    s.add(self.inst(k))
                    self.rep.check("lock-order", self.inst(k) not in self.held(f, c), "again:%s:%s" % (f.name, self.pl(k)),
                                   self.site(f, c), "%s is taken while it is already held" % self.pl(k))
            direct[f] = s
        order = {}
        memo = {}

        def may(g):
            if g in memo:
                return memo[g]
            todo, seen, s = [g], {g}, set()
            while todo:
                x = todo.pop()
                s |= direct.get(x, set())
                for c in x.calls():
                    y = self.prog.callee(x, c)
                    if y is not None and y not in seen and not y.noreturn:
                        seen.add(y)
                        todo.append(y)
            memo[g] = s
            return s
        for f in self.L.need:
            if f not in self.L.at:
                continue
            for c in f.calls():
                h = self.held(f, c)
                if not h:
                    continue
                name = f.callee(c)
                if name == "nvc_lock":
                    k = self.L.key(f, f.args(c)[0])
                    new = {self.inst(k)} if k else set()
                else:
                    g = self.prog.callee(f, c)
                    new = may(g) if g is not None and not g.noreturn else set()
                    new = new - {k for k in new if (f.name, name, self.pl(k)) in NOTAKE}
                for a in h:
                    for b in new:
                        order.setdefault(a, {}).setdefault(b, (f, c))
        self.cycles(order)
        # assert_lock_held
        for f in self.prog.fns:
            for k in self.asserted(f):
                calls = [(g, c) for g, c in self.all_calls(f)]
                for g, c in calls:
                    good = k in self.held(g, c) or self.sh.fresh(g, g.args(c)[0]) if g.args(c) else k in self.held(g, c)
                    if (g.name, f.name) in LAZYLOCK:
                        good = good or any(self.inst(self.L.key(g, g.args(x)[0])) == k for x in g.calls("nvc_lock"))
                    self.rep.check("held", good, "%s:%s" % (g.name, f.name), self.site(g, c),
                                   "%s expects %s to be held by its caller" % (f.name, self.pl(k)))
        # balance of explicit calls
        for f in self.prog.fns:
            if f.name in ("__scoped_unlock", "nvc_unlock", "nvc_lock") or f.name in ASYM:
                continue
            if not any(f.callee(c) in ("nvc_lock", "nvc_unlock") for c in f.calls()):
                continue
            bad = self.unbalanced(f)
            self.rep.check("balance", bad is None, f.name, self.site(f, bad if bad is not None and bad >= 0 else f.body),
                           "a lock taken in this function is still held when it returns, or released without being held")

    def all_calls(self, f):
        if f.static:
            for g in self.prog.fns:
                for c in g.calls(f.name):
                    if self.prog.callee(g, c) is f:
                        yield g, c
        else:
            for g in self.prog.fns:
                for c in g.calls(f.name):
                    yield g, c

    def unbalanced(self, f):
        """May-held set of explicit locks at exit / releases of locks not held."""
        bad = []
        scoped = {}
        for n in f.walk():
            if f.kind(n) == "decl":
                for v, init in f.pay(n):
                    if init is not None and f.vartype(v).replace(" ", "").startswith("nvc_lock_t*"):
                        if any(not isinstance(e, int) and len(e) > 2 and e[1] == v for b in f.cfg.blocks.values() for e in b.elems):
                            scoped[v] = self.L.key(f, init)

        def transfer(st, e, b, i):
            if not isinstance(e, int):
                if len(e) > 2 and e[2] == "__scoped_unlock":
                    k = scoped.get(e[1])
                    if k not in st:
                        return st
                    return st - {k}
                return st
            if f.kind(e) == "call":
                if f.callee(e) == "nvc_lock":
                    return st | {self.L.key(f, f.args(e)[0])}
                if f.callee(e) == "nvc_unlock":
                    k = self.L.key(f, f.args(e)[0])
                    if k not in st:
                        bad.append(e)
                    return st - {k}
                if self.prog.call_noreturn(f, e):
                    return None
            return st
        ins = core.forward(f, frozenset(), transfer, None, lambda a, b: a | b)
        if bad:
            return bad[0]
        if ins.get(f.cfg.exit):
            return -1
        return None

    def cycles(self, order):
        nodes = set(order) | {b for m in order.values() for b in m}
        for a in nodes:
            for b, (f, c) in sorted(order.get(a, {}).items(), key=str):
                seen, todo, back = {b}, [b], b == a
                while todo and not back:
                    x = todo.pop()
                    for y in order.get(x, {}):
                        if y == a:
                            back = True
                        if y not in seen:
                            seen.add(y)
                            todo.append(y)
                self.rep.check("lock-order", not back, "%s>%s:%s" % (self.pl(a), self.pl(b), f.name), self.site(f, c),
                               "%s may be taken here while %s is held, and elsewhere the other way round" % (self.pl(b), self.pl(a)))

    # ---- (wait, sleep) ------------------------------------------------------------------------------------------------
    def waits(self):
        for f in self.prog.fns:
            for c in f.calls():
                if f.callee(c) not in WAITS or f.name in WAITS:
                    continue
                loop = self.loop_of(f, c)
                if loop is None:
                    self.rep.ok("wait", self.site(f, c))      # the caller goes round
                    continue
                ok = any(f.kind(x) == "atomic" for x in f.walk(loop)) or \
                    any(self.reads_atomic(f, x) for x in f.walk(loop) if f.kind(x) == "call")
                self.rep.check("wait", ok, f.name, self.site(f, c), "this loop waits for another thread but reads nothing atomically")
        M = shared.Locks(self.prog, self.sh, "platform_mutex_lock", "platform_mutex_unlock", "-")
        for f in self.prog.fns:
            for c in f.calls("platform_cond_wait"):
                k = M.key(f, f.args(c)[1])
                held = k is not None and k in M.held(f, c)
                self.rep.check("sleep", held, "mutex:" + f.name, self.site(f, c), "waits on a condition without holding its mutex")
                self.rep.check("sleep", self.tested(f, c), "test:" + f.name, self.site(f, c),
                               "waits on a condition without having tested a predicate since the mutex was locked: the wake-up can be missed")
            if f.name in ("platform_mutex_lock", "platform_mutex_unlock"):
                continue
            if any(True for c in f.calls("platform_mutex_lock")):
                bad = self.mutex_balance(f)
                self.rep.check("balance", not bad, "mutex:" + f.name, self.site(f, f.body), "a mutex is still held when the function returns")

    def mutex_balance(self, f):
        def transfer(st, e, b, i):
            if isinstance(e, int) and f.kind(e) == "call":
                if f.callee(e) == "platform_mutex_lock":
                    return st + 1 if st < 3 else st
                if f.callee(e) == "platform_mutex_unlock":
                    return st - 1
            return st
        ins = core.forward(f, 0, transfer, None, max)
        return bool(ins.get(f.cfg.exit))

    def tested(self, f, c):
        """On every path from the lock to the wait a branch on shared data was taken."""
        def reads(x):
            return any(f.kind(y) in ("atomic", "call", "mem") for y in f.walk(x))

        def transfer(st, e, b, i):
            if not isinstance(e, int):
                return st
            if f.kind(e) == "call" and f.callee(e) == "platform_mutex_lock":
                return 0, frozenset()
            if e == c:
                res.append(st[0])
            if f.kind(e) == "decl":
                return st[0], st[1] | {v for v, init in f.pay(e) if init is not None and reads(init)}
            if f.kind(e) == "asg" and f.kind(f.unwrap(f.kids(e)[0])) == "var" and reads(f.kids(e)[1]):
                return st[0], st[1] | {f.var_of(f.unwrap(f.kids(e)[0]))}
            return st

        def edge(st, b, s, kind):
            blk = f.cfg.blocks[b]
            if blk.cond is not None and kind in (True, False):
                if reads(blk.cond) or any(f.kind(x) == "var" and f.var_of(x) in st[1] for x in f.walk(blk.cond)):
                    return 1, st[1]
            return st
        res = []
        core.forward(f, (0, frozenset()), transfer, edge, lambda a, b: (min(a[0], b[0]), a[1] & b[1]))
        return bool(res) and min(res) == 1

    def reads_atomic(self, f, c, depth=0):
        g = self.prog.callee(f, c)
        if g is None:
            return False
        m = self.__dict__.setdefault("_ra", {})
        if g in m:
            return m[g]
        m[g] = False
        m[g] = any(g.kind(x) == "atomic" for x in g.walk()) or depth < 2 and any(self.reads_atomic(g, x, depth + 1) for x in g.calls())
        return m[g]

    def loop_of(self, f, n):
        q = f.parent(n)
        while q >= 0:
            if f.kind(q) in ("while", "for", "do"):
                return q
            q = f.parent(q)
        return None


def run(prog, rep):
    rep.rule("order", "a place that hands data to another thread is stored with release and read with acquire ordering")
    rep.rule("plain", "a place accessed atomically anywhere is accessed plainly only while private, torn down, locked or as listed")
    rep.rule("publish", "an object is not modified after it was made visible to other threads")
    rep.rule("payload", "the data a tag announces is written before the tag, on every path")
    rep.rule("claim", "after something was claimed by compare-and-swap every path stores its final mark")
    rep.rule("cas", "the result of a compare-and-swap is used")
    rep.rule("reclaim", "what was replaced in a shared place goes to the deferred free after its replacement was stored")
    rep.rule("guard", "data that belongs to a lock is accessed with the lock held")
    rep.rule("held", "callers hold the lock a function expects")
    rep.rule("balance", "locks are released on every path and only when held")
    rep.rule("lock-order", "no lock is taken while held, and the order of locks has no cycle")
    rep.rule("wait", "a loop that waits for another thread reads something atomically each time round")
    rep.rule("sleep", "conditions are waited for with the mutex held and the predicate tested")
    Conc(prog, rep).run()
    for r, m in (("order", 60), ("plain", 60), ("publish", 5), ("payload", 5), ("claim", 6), ("cas", 15), ("reclaim", 4),
                 ("guard", 80), ("held", 5), ("balance", 10), ("lock-order", 20), ("wait", 8), ("sleep", 4)):
        rep.require(r, m)
