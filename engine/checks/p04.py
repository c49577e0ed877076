"""P04: scopes, locks, modes and files that were acquired are released on every path."""
import balance
from facts import AnalysisError

WANT = None
EXPLAIN = """
(balanced) Paired operations -- name-table scopes, the type solver's sets,
overload resolution, elaboration scopes, section begin/end of the object, locus
and identifier files, locks, saved emitter state, temporary stack marks, scanner
modes, waveform scopes, register saves -- are tracked as a depth along every
path of every function, interprocedurally, with branches on the same unmodified
condition correlated and cleanup-attribute calls included.  A function whose
net depth depends on the path (and that its result does not tell apart), or a
loop that changes the depth, is reported.  (released) Every file, directory,
socket or descriptor opened into a local variable is followed from its opening
call along every path: it must be closed, returned, or handed to something
that closes or stores it, before the function is left.
"""
ASSUME = [
    "a condition over unmodified variables keeps its value between two tests in one function",
    "functions called through pointers take over the descriptors passed to them",
    "paths that end in a fatal error need not release",
]
PARSE = ("peek_nth", "optional", "_scan", "_one_of", "consume")

# class -> (acquire, release, least sites, what)
CLASSES = [
    ("scope", ["push_scope"], ["pop_scope"], 60, "name-table scope"),
    ("type-set", ["type_set_push"], ["type_set_pop"], 16, "type solver's set"),
    ("overload", ["begin_overload_resolution"], ["finish_overload_resolution"], 4, "overload resolution"),
    ("elab-scope", ["elab_push_scope"], ["elab_pop_scope"], 8, "elaboration scope"),
    ("loc-read", ["loc_read_begin"], ["loc_read_end"], 4, "locus section"),
    ("loc-write", ["loc_write_begin"], ["loc_write_end"], 2, "locus section"),
    ("ident-read", ["ident_read_begin"], ["ident_read_end"], 4, "identifier section"),
    ("ident-write", ["ident_write_begin"], ["ident_write_end"], 4, "identifier section"),
    ("mutex", ["platform_mutex_lock", "pthread_mutex_lock"], ["platform_mutex_unlock", "pthread_mutex_unlock"], 4,
     "mutex"),
    ("lock", ["nvc_lock"], ["nvc_unlock", "__scoped_unlock"], 25, "lock"),
    ("file-lock", ["file_read_lock", "file_write_lock"], ["file_unlock"], 4, "lock on the library"),
    ("debug-scope", ["emit_package_scope", "emit_array_scope", "emit_record_scope"], ["emit_pop_scope"], 8, "signal scope"),
    ("emitter-state", ["vcode_state_save"], ["vcode_state_restore"], 8, "saved emitter state"),
    ("tlab-mark", ["__tlab_mark"], ["__tlab_restore"], 8, "temporary stack mark"),
    ("wave-scope", ["fst_enter_scope"], ["fst_leave_scope"], 2, "waveform scope"),
    ("world", ["stop_world"], ["start_world"], 2, "stop-the-world section"),
    ("quote", ["begin_quote"], ["end_quote"], 4, "quotation"),
    ("registers", ["jit_x86_push_call_clobbered"], ["jit_x86_pop_call_clobbered"], 8, "register save"),
    ("psl-mode", ["scan_as_psl"], ["scan_as_vhdl"], 12, "scanner mode"),
    ("udp-mode", ["scan_as_udp"], ["scan_as_verilog"], 3, "scanner mode"),
    ("sdf-mode", ["scan_as_sdf_expr"], ["scan_as_sdf"], 2, "scanner mode"),
]
WITHIN = {"psl-mode": ["src/parse.c"], "udp-mode": ["src/vlog/vlog-parse.c"], "sdf-mode": ["src/sdf/sdf-parse.c"]}
# The entry points that select the initial mode
RESET = {"psl-mode": {"parse"}, "udp-mode": {"vlog_parse"}, "sdf-mode": {"sdf_parse"}}

EXEMPT = {
    ("file-lock", "lib_new"): "a new library is handed to lib_init locked, which unlocks it",
    ("file-lock", "lib_init"): "unlocks what it locked itself or what lib_new, the descriptor's owner, locked",
    ("debug-scope", "lower_pack_body"): "pops the scope that lowering the package opened when it has signals",
    ("lock", "workq_start"): "the queue lock is taken with the first parallel task and released if there was one",
    ("fd", "handle_new_connection", "accept"): "every server protocol defines the new_connection hook",
}


def run(prog, rep):
    rep.rule("balanced", "the net effect of a function on paired operations is the same on every path")
    rep.rule("released", "an opened file, directory or socket is closed, returned or handed over on every path")
    for name, up, down, least, what in CLASSES:
        B = balance.Balance(prog, up, down, within=WITHIN.get(name), volatile=PARSE)
        if B.sites < least:
            raise AnalysisError("only %d %s operations found" % (B.sites, name))
        rep.count("%s operations" % name, B.sites)
        bad = {}
        for f, outs in B.violations():
            if (name, f.name) not in EXEMPT:
                bad.setdefault(f, outs)
        for f, s in B.sum.items():
            # a consistent net effect has to be undone by somebody
            ds = {d for d, _ in s}
            if f not in bad and ds != {0} and not B.rev.get(f) and f.name not in RESET.get(name, ()):
                bad[f] = [(d, f.loc(f.body)) for d in ds]
        for f in sorted(B.res, key=lambda f: (f.file, f.name)):
            if f not in bad:
                rep.ok("balanced", f.loc(f.body))
                continue
            o = bad[f]
            ds = sorted({d for d, _ in o if d != "loop"})
            if len(ds) > 6 or not ds:
                msg = "a loop in %s leaves one %s more or less on each iteration" % (f.name, what)
            else:
                base = 0
                msg = "%s leaves a %s unbalanced on some path: %s" % (
                    f.name, what, ", ".join("%+d at %s" % x for x in o if x[0] != base and x[0] != "loop")[:160])
            rep.bad("balanced", "%s:%s" % (name, f.name), o[0][1], msg)
    T = balance.Takes(prog)
    n = 0
    for f in prog.fns:
        for c in f.calls():
            op = f.callee(c)
            if op not in balance.OPENERS or f.cfg_raw is None:
                continue
            n += 1
            O = balance.Owned(prog, T, f, c)
            outs = O.analyse(f)
            bad = sorted({f.loc(x) if x >= 0 else "%s (end of function)" % f.loc(f.body) for d, r, x in outs if d > 0})
            if ("fd", f.name, op) in EXEMPT:
                bad = []
            rep.check("released", not bad, "%s:%s" % (f.name, op), f.loc(c),
                      "%s opened in %s by %s is still open on the path leaving at %s"
                      % ("what is" if not O.vars else ", ".join(sorted(f.varname(v) for v in O.vars)),
                         f.name, op, ", ".join(bad)))
    rep.require("balanced", 120)
    rep.require("released", 35)
