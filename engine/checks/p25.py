"""P25: syntax-tree nodes are only asked for attributes their kind has."""
import kinds
from facts import AnalysisError

WANT = None

EXPLAIN = """
Kind-state dataflow over every function of the front end, elaborator, lowering,
simplifier and tools.  For each syntax-tree, type, Verilog and PSL node variable
the set of node kinds it can have is tracked through switches and comparisons on
its kind, one-argument predicates (is_subprogram(t), evaluated abstractly for
each kind), tests remembered in boolean variables, node construction, and calls:
a static function's parameter gets the union of what its callers pass.  At each
attribute access with a known set, every kind in the set must have the attribute
according to the has_map table of its family; otherwise the access aborts the
tool with an internal error for the design that reaches it.
"""
ASSUME = ["an access whose node kind is not established in the program text is not decided",
          "attributes absent but permitted (null) are outside this rule"]

# Kinds that reach an access only in states the kind-state cannot express.
EXEMPT = {
    ("lower_param_ref", "tree_class", "T_FUNC_BODY"):
        "only reached in thunk mode, where eval_possible() refuses references to function bodies",
}


def run(prog, rep):
    K = kinds.Kinds(prog)
    rep.rule("attribute", "every kind a node can have at an attribute access has that attribute")
    K.analyse()
    for (fn, e) in sorted(K.seen, key=lambda x: (x[0].file, x[0].name, x[1])):
        v = K.violations.get((fn, e))
        site = fn.loc(e)
        if v is None:
            rep.ok("attribute", site)
            continue
        nm, fa, bad = v
        left = [k for k in bad if (fn.name, nm, k) not in EXEMPT]
        if not left:
            rep.ok("attribute", site)
        for k in left:
            rep.bad("attribute", "%s:%s:%s" % (fn.name, nm, k), site,
                    "%s: %s is reached with a node of kind %s, which has no such attribute" % (fn.name, fn.txt(e)[:60], k))
    rep.require("attribute", 2500)
    rep.count("attribute_accessors", len(K.acc))
    rep.count("node_kinds", sum(len(f.universe) for f in K.fams))
    rep.count("predicates_evaluated", len(K.preds))
    rep.count("parameters_with_known_kinds", sum(1 for v in K.param.values() if v for s in v.values() if s is not None))
