"""P37: results of lookups that can fail are tested before they are used."""
import nulls
from facts import AnalysisError

WANT = None
EXPLAIN = """
A summary is computed for every function: under which conditions on its
arguments it can return NULL (explicit NULL, a failed nested call, a value
known to be NULL on the path), and which parameters it cannot survive being
NULL (every path from entry with that parameter NULL dereferences it, asserts,
or passes it to such a function).  Each call of a function that can return NULL
is then followed through its caller, splitting on NULL / not NULL and refining
on every test: reaching a dereference, or an argument that must not be NULL,
with the result still possibly NULL is reported.  The same analysis reports a
pointer that the function itself tests against NULL and then dereferences on
the path where it is NULL.  Functions whose NULL result is excluded by a
contract between caller and callee are listed in CONTRACT with the reason.
"""
ASSUME = [
    "the listed contracts hold (the condition under which the callee returns NULL cannot arise at its unchecked uses)",
    "pointers loaded from data structures are only followed when the function itself tested them",
]

CONTRACT = {
    "range_of": "dimension and bounds are established by the caller's type tests",
    "index_type_of": "dimension within the array's dimensions",
    "tree_from_object": "object known to be a tree node by its origin",
    "split_nexus": "offset and count are within the signal",
    "solve_types": "NULL only for procedure calls and unresolvable names, whose callers parsed an expression",
    "_solve_types": "as solve_types",
    "solve_target": "as solve_types",
    "solve_psl_condition": "as solve_types",
    "name_to_ref": "static name, checked during analysis",
    "get_active_proc": "only called while a process runs",
    "get_active_wakeable": "only called while a process or watch runs",
    "lower_arg_type": "operator has that many parameters",
    "lower_get_cover_scope": "only called while coverage is enabled, which creates the scope",
    "loc_file_str": "location of an analysed object",
    "find_enclosing": "called inside that kind of region",
    "vhpi_get_case_name": "object kind has a name",
    "merge_coverage_files": "at least one file is given",
    "sem_check_lvalue": "guarded by the kind computed from it",
    "source_value": "at least as many non-null sources as counted",
    "mir_get_name": "operand is a name",
    "mir_get_shape": "unit was generated",
    "elab_pick_arch": "architecture found in the index exists on disk",
    "get_aliased_subprogram": "alias was resolved when bound",
    "find_scope": "scope was created for every elaborated block",
    "find_element_mode_indication": "record element exists in the view",
    "vhpi_get_scope_abstractRegion": "region was elaborated",
    "unit_registry_get": "dependency was registered",
    "ident_walk_selected": "name is not empty",
    "iterate_symbol_for": "a declaration with this name was found before",
    "get_local_decl": "declared in package STD.TEXTIO/STANDARD",
    "elab_driver_set": "the architecture or block being elaborated has drivers computed",
    "cast_foreignf": "registered handle of that class",
    "body_of": "package needs a body",
    "get_type_or_null": "declaration kind carries a type",
    "lib_get": "unit comes from the library's index",
    "unpack_str": "string is present for this record",
    "__to_01": "non-empty operand: allocation does not fail",
    "__resize_unsigned": "non-empty operand: allocation does not fail",
    "__tlab_alloc": "memory exhaustion is reported by the allocator",
    "tlab_alloc": "memory exhaustion is reported by the allocator",
    "ieee_to_01_slow": "non-empty operand: allocation does not fail",
    "parse": "error or end of input",
}
# (function, expression) tested on one path and used on another, where the two conditions exclude each other
CORRELATED = {
    ("diag_new", "loc"): "loc_invalid_p(NULL) holds",
    ("instantiate_subprogram", "body_copy"): "set whenever body is",
    ("jit_unpack_args", "f->spec.ext"): "alternatives of a tagged word",
    ("overload_next_argument", "type"): "could_be_index implies a type",
    ("sem_compare_interfaces", "bdef"): "equal kinds imply both are present",
    ("vhpi_get_value", "td->map_str"): "string formats imply a character map",
    ("solve_all", "type"): "resolve_type never fails",
}


def run(prog, rep):
    rep.rule("checked", "the result of a call that can yield NULL is tested before it is dereferenced")
    rep.rule("tested", "a pointer found NULL by a test is not dereferenced on that path")
    X = nulls.Nulls(prog)
    if len(X.ret) < 200 or len(X.req) < 2000:
        raise AnalysisError("only %d functions that can return NULL and %d that require a value" % (len(X.ret), len(X.req)))
    rep.count("functions that can return NULL", len(X.ret))
    rep.count("functions with parameters that must not be NULL", len(X.req))
    for f in X.cand:
        found = {}

        def report(f, e, d, v):
            if isinstance(v, tuple):
                found.setdefault(("checked", v[1]), (e, d, v[0]))
            elif v == "tested":
                found.setdefault(("tested", f.txt(d)), (e, d, None))
        X.run(f, frozenset(), report)
        for c in f.calls():
            name = f.callee(c)
            if name in CONTRACT or X.conds(f, c) is None:
                continue
            b = found.get(("checked", c))
            rep.check("checked", b is None, b and "%s:%s:%s" % (f.name, name, f.txt(b[1])[:40]), f.loc(c if not b else b[0]),
                      b and "%s uses %s, the result of %s() at %s, which can be NULL here"
                      % (f.name, f.txt(b[1])[:50], name, f.loc(c)))
        n = 0
        for (rule, txt), (e, d, _) in found.items():
            if rule == "tested" and (f.name, txt) not in CORRELATED:
                rep.bad("tested", "%s:%s" % (f.name, txt[:50]), f.loc(e),
                        "%s dereferences %s on a path where it was found to be NULL" % (f.name, txt[:50]))
                n += 1
        if not n:
            rep.ok("tested", f.loc(f.body))
    rep.require("checked", 1200)
    rep.require("tested", 4000)
