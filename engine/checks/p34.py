"""P34: no pointer is used after its storage was moved or released."""
import borrow

WANT = None
EXPLAIN = """
Two ownership analyses over every function.  (moved) Growable arrays are found
from their reallocation sites; an expression that points into one is a borrow
(directly, through a member/element address, or through a function summarised
as returning such a pointer).  Every call's transitive set of arrays it may
reallocate is computed over the call graph, with the instance (which argument,
or global state) it starts from; a borrow held across a call that may move the
same array must not be used again.  (released) For every function the
parameters it releases on all paths (free, fclose, return to a free list, or
another releasing function) are summarised; after such a call the pointer may
not be dereferenced, passed on, returned or released again before it is
reassigned.
"""
ASSUME = ["calls through function pointers do not reallocate the arrays borrowed by their caller",
          "two different access roots (other argument, other local) denote different instances"]

EXEMPT = {
    ("interp_copy", "int32_t cover_mem"): "coverage counters are never the operand of a block copy",
    ("interp_move", "int32_t cover_mem"): "coverage counters are never the operand of a block move",
    ("lower_enum_value_helper", "block_t"): "the helper unit has six blocks, fewer than the initial capacity of eight",
    ("lower_physical_value_helper", "block_t"): "the helper unit has six blocks, fewer than the initial capacity of eight",
    ("mir_const_string", "node_data_t"): "character constants are small constants, for which mir_const adds no node",
}


def run(prog, rep):
    rep.rule("moved", "a pointer into a growable array is not used after a call that may reallocate that array")
    rep.rule("released", "a pointer is not used after the object it points to was released")
    B = borrow.Borrow(prog)
    bad = {}
    for f in prog.fns:
        B.check(f, lambda fn, e, v, s: bad.setdefault((fn, e, v), s))
    n = B.sites
    for (fn, e, v), s in sorted(bad.items(), key=lambda x: (x[0][0].file, x[0][1])):
        if (fn.name, s[0]) in EXEMPT:
            continue
        n -= 1
        rep.bad("moved", "%s:%s:%s" % (fn.name, fn.varname(v), s[0]), fn.loc(e),
                "'%s' points into an array of %s and is used after %s (line %d), which may move the array"
                % (fn.varname(v), s[0], fn.txt(s[1])[:50], fn.lineof(s[1])))
    rep.rules["moved"]["obligations"] += n
    rep.rules["moved"]["samples"] = [f.loc(x) + " grows " + r for f, x, r in B.growth[:4]]
    rep.require("moved", 1800)
    F = borrow.Freed(prog)
    bad = {}
    for f in prog.fns:
        F.check(f, lambda fn, e, v, s: bad.setdefault((fn, e, v), s))
    for (fn, e, v), s in sorted(bad.items(), key=lambda x: (x[0][0].file, x[0][1])):
        nm = ".".join([fn.varname(v[0])] + list(v[1:]))
        rep.bad("released", "%s:%s" % (fn.name, nm), fn.loc(e),
                "'%s' is used after it was released by %s (line %d)" % (nm, fn.txt(s)[:50], fn.lineof(s)))
    rep.rules["released"]["obligations"] += F.sites
    rep.rules["released"]["samples"] = sorted(f.name for f in F.sum)[:8]
    rep.require("released", 450)
    rep.count("growth_sites", len(B.growth))
    rep.count("functions_that_may_grow_an_array", len(B.eff))
    rep.count("functions_returning_borrows", len(B.ret))
    rep.count("releasing_functions", len(F.sum))
