"""P14: constant folding, simplification, reuse and bounds keep the value."""
import re
import core, folds
from folds import N, is_n, Order, poly
from facts import AnalysisError

WANT = ["src/vcode.c", "src/mir/mir-node.c", "src/mir/mir-type.c", "src/jit/jit-optim.c"]

EXPLAIN = """
Every acyclic path of every builder of an arithmetic, logical, comparison, selection, cast or range operation in
src/vcode.c and src/mir/mir-node.c is evaluated symbolically over the syntax tree (helpers of the same file inlined) to a
term for the value it returns and a set of facts (outcomes of its conditions).  No solver is used: terms are put in
normal form and compared.

(value) The returned term - a constant folded from known operands, an operand handed back, an operation of another kind,
or the operation itself - must equal the operation the builder is named for, over the builder's parameters and under the
path's facts: polynomial normal form for + - * and negation, quotient and remainder only with a divisor proved non-zero
and not MIN / -1, truth tables for logic, the three orderings of the operands for comparisons and null ranges, the
closure of the path's inequalities for abs, mod and rem.  A constant is used only where the path established that the
operand is constant.
(trap) A builder of an overflow-checked operation may build the unchecked one only on a path that showed bounds covering
the result to fit the representation.
(bounds) The bounds stored for a result, the stamps handed to MIR nodes, and what each mir_stamp_* function returns must
contain every corner of the operands' bounds; no stamp is computed from one that may be unknown.
(reuse) A path that returns an earlier operation must have compared kind, every operand and every field that the path
building a new operation sets from the parameters; only operands that are source positions are exempt.
(wrapped) left, right, direction and data taken out of a wrap operation use the operand index of that part and dimension.
(memory) The backwards scans of emit_load, emit_load_indirect and emit_store stop at each kind of operation that may
write (or, for a store, read) the place; taking the address of a variable is recorded.
"""
ASSUME = ["bounds recorded for operands are correct, so each builder is judged alone",
          "operation and field names (VCODE_OP_x, MIR_OP_x) mean what the interpreter and code generators implement",
          "floating-point identities x - x = 0 and x = x are accepted as vcode's meaning (see DESIGN.md)",
          "loops are followed for at most one iteration when terms are computed"]

V, M, T = "src/vcode.c", "src/mir/mir-node.c", "src/mir/mir-type.c"

# arithmetic and logic builders: (function, parameters, meaning)
B2 = ["add", "sub", "mul", "div", "mod", "rem", "exp"]
LOGIC = ["and", "or", "xor", "xnor", "nand", "nor"]

OPNAME = {}
for _n in B2 + LOGIC + ["neg", "abs", "not", "cmp", "select", "cast", "range_null", "range_length"]:
    for _p in ("VCODE_OP_", "MIR_OP_"):
        OPNAME[_p + _n.upper()] = _n
        OPNAME[_p + "TRAP_" + _n.upper()] = _n


def P(x):
    return ("p", x)


# ---------------------------------------------------------------- hooks
def h_expect(paths, st, a, n, fn):
    return a[0]


def getconst(nargs, which, tag=""):
    def h(paths, st, a, n, fn):
        x, out = a[which], a[nargs]
        if out[0] == "addr":
            paths.store(out[1], (tag + "cv", x), st)
        return (tag + "isconst", x)
    return h


def h_same(paths, st, a, n, fn):
    return ("cmp", "==", a[0], a[1])


def arith(op):
    return lambda paths, st, a, n, fn: (op, a[0], a[1])


def h_addop(paths, st, a, n, fn):
    t = ("op", a[0], n)
    st.ops[t] = []
    return t


def h_addarg(paths, st, a, n, fn):
    st.ops[a[0]] = st.ops.get(a[0], []) + [a[1]]
    return N(0)


def h_clamp(paths, st, a, n, fn):
    # *low and *high are clamped to the representation; true if they were already inside it
    vals = [paths.load(x[1], st) if x[0] == "addr" else x for x in a[1:3]]
    return ("fits",) + tuple(vals)


def h_addreg(paths, st, a, n, fn):
    return ("reg", n)


HOOKS = {
    "__builtin_expect": h_expect,
    "vcode_reg_const": getconst(1, 0), "mir_get_const": getconst(2, 1), "mir_get_const_real": getconst(2, 1, "r"),
    "vcode_reg_const_real": getconst(1, 0, "r"), "mir_equals": h_same,
    "sadd64": arith("s+"), "ssub64": arith("s-"), "smul64": arith("s*"),
    "vcode_add_op": h_addop, "vcode_add_arg": h_addarg, "vtype_clamp_to_repr": h_clamp, "vcode_add_reg": h_addreg,
}
BASE = {"emit_arith", "mir_build_arith", "mir_build_0", "mir_build_1", "mir_build_2", "mir_build_3", "mir_build_4",
        "mir_build_5", "mir_build_6", "emit_const", "emit_const_real", "mir_const", "mir_const_real", "emit_jump"}


def inline(name):
    if name in BASE:
        return False
    return not re.match(r"(vcode|vtype|mir)_(?!build_)", name)


def inline_all(name):
    return name not in BASE


# ---------------------------------------------------------------- normal form of terms
def fields_of(t):
    """(base term, [field names]) of a load chain"""
    names = []
    pl = t[1]
    while True:
        if pl[0] == "field":
            names.append(pl[2])
            pl = pl[1]
        elif pl[0] == "deref":
            return pl[1], names[::-1]
        elif pl[0] == "elem":
            names.append(("[]", pl[2]))
            b = pl[1]
            if b[0] == "load":
                pl = b[1]
                continue
            return b, names[::-1]
        else:
            return None, names[::-1]


def bounded(t):
    """the value whose bounds this type or stamp describes, or None"""
    if t[0] == "p":
        return t
    if t[0] == "call":
        if t[1] in ("vcode_type_data", "mir_stamp_data", "mir_type_data", "mir_get_stamp", "vcode_reg_bounds",
                    "vtype_bounds"):
            return bounded(t[2][-1])
        if t[1] == "vcode_reg_data":
            return None
    if t[0] == "load":
        b, fs = fields_of(t)
        if fs == ["bounds"] and b is not None and b[0] == "call" and b[1] == "vcode_reg_data":
            return b[2][0] if b[2][0][0] in ("p", "node") else None
    return None


LOW, HIGH = {"low", "rlow"}, {"high", "rhigh"}


def norm(t):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "n":
        return ("n", t[1])
    if t[0] in ("cv", "rcv"):
        return norm(t[1])
    if t[0] == "fld" and t[2] == "bits":
        return norm(t[1])
    if t[0] == "load":
        b, fs = fields_of(t)
        if b is not None and fs and isinstance(fs[-1], str) and fs[-1] in LOW | HIGH:
            v = bounded(b)
            if v is not None:
                return ("lo" if fs[-1] in LOW else "hi", v[1])
        return t
    if t[0] == "cmp":
        return ("cmp", t[1], norm(t[2]), norm(t[3]))
    if t[0] == "?":
        c, a, b = norm(t[1]), norm(t[2]), norm(t[3])
        mm = minmax(c, a, b)
        return mm or ("?", c, a, b)
    if t[0] in ("call", "op", "agg", "oneof", "noneof"):
        return t
    if t[0] in ("s+", "s-", "s*"):
        return (t[0][1], norm(t[1]), norm(t[2]))
    return (t[0],) + tuple(norm(x) if isinstance(x, tuple) else x for x in t[1:])


def minmax(c, a, b):
    if c[0] == "cmp" and c[1] in ("<", "<=", ">", ">="):
        less = c[1][0] == "<"
        if (c[2], c[3]) == (a, b):
            kind = "min" if less else "max"
        elif (c[2], c[3]) == (b, a):
            kind = "max" if less else "min"
        else:
            return None
        out = []
        for x in (a, b):
            out.extend(x[1] if x[0] == kind else [x])
        return (kind, tuple(out))
    return None


def consts_used(t, acc):
    if isinstance(t, tuple):
        if t and t[0] in ("cv", "rcv"):
            acc.add(t)
        for x in t:
            if isinstance(x, tuple):
                consts_used(x, acc)
    return acc


class Case:
    """one path: facts in normal form"""

    def __init__(self, fn, st, val, node):
        self.fn, self.st, self.node = fn, st, node
        self.val = val
        self.isconst = {(f[0][0].replace("isconst", "cv"), f[0][1])
                        for f in st.facts if f[1] and f[0][0] in ("isconst", "risconst")}
        self.facts = []
        self.subst = {}
        self.raw = st.facts
        values = {P(fn.varname(p)) for p in fn.params if fn.vartype(p) in ("vcode_reg_t", "mir_value_t", "int")}
        for t, pol in st.facts:
            if consts_used(t, set()) - self.isconst:
                continue            # reads a variable that was not set
            if t in values:
                continue            # identity of a register, not its value
            if t[0] == "cmp":
                t = (t[0], t[1]) + tuple(x[1] if x[0] == "fld" and x[2] == "bits" else x for x in t[2:])
            if t[0] == "cmp" and (t[2] in values or t[3] in values):
                same = (t[1] == "==") == pol and t[1] in ("==", "!=")
                if not (same and t[2] in values and t[3] in values):
                    continue
            t = norm(t)
            self.facts.append((t, pol))
            if t[0] == "cmp" and ((t[1] == "==" and pol) or (t[1] == "!=" and not pol)):
                if is_n(t[3]) and not is_n(t[2]):
                    self.subst[t[2]] = t[3]
                elif is_n(t[2]):
                    self.subst[t[3]] = t[2]
                elif t[2][0] == "p" and t[3][0] == "p":
                    self.subst[t[3]] = t[2]
            elif t[0] == "oneof" and len(t[2]) == 1 and t[1][0] == "p":
                self.subst[t[1]] = N(next(iter(t[2])))
            elif t[0] == "call" and t[1] == "mir_equals" and pol and len(t[2]) == 2:
                a, b = t[2]
                if a[0] == "p" and b[0] == "p":
                    self.subst[b] = a
            elif t[0] == "p":
                # tested as a truth value
                if not pol:
                    self.subst[t] = N(0)
                else:
                    self.facts.append((("cmp", "!=", t, N(0)), True))

    def order(self, extra=()):
        return Order(self.facts, extra, self.subst)

    def loc(self):
        return self.fn.loc(self.node) if self.node is not None else "%s:%d" % (self.fn.file, self.fn.line)


def enum_name(t):
    return t[2] if is_n(t) and len(t) > 2 else None


# ---------------------------------------------------------------- meaning of results
VALUE_ARGS = {"vcode": {"not": 1, "neg": 1, "abs": 1, "cmp": 3, "select": 3, "range_null": 3, "range_length": 3},
              "mir": {"not": 1, "neg": 1, "abs": 1, "cmp": 3, "select": 3, "range_null": 3, "range_length": 3}}


def node(op, *args):
    return ("node", op) + tuple(args)


class Meaning:
    """what the value returned on a path stands for"""

    def __init__(self, case):
        self.c = case
        self.problem = None
        self.plain = False          # an operation that does not trap was built

    def const(self, t):
        missing = consts_used(t, set()) - self.c.isconst
        if missing:
            self.problem = "the constant value of %s is used where it is not known to be constant" % \
                ", ".join(sorted(show(x[1]) for x in missing))
        return norm(t)

    def of(self, t):
        c = self.c
        if t is None:
            return None
        if t[0] in ("p", "n"):
            return t
        if t[0] == "?":
            a, b = self.of(t[2]), self.of(t[3])
            if a is None or b is None:
                return None
            return ("?", norm(t[1]), a, b)
        if t[0] == "reg":
            for e in c.st.events:
                if e[0] == "store" and e[2] == t and e[1][0] == "field" and e[1][2] == "result":
                    return self.built(e[1][1])
            return None
        if t[0] == "load":
            b, fs = fields_of(t)
            if fs == ["result"]:
                return self.reused(b)
            return None
        if t[0] != "call":
            return None
        name, a = t[1], t[2]
        if name == "mir_get_arg" and a[1][0] == "p":
            return ("arg", a[1], norm(a[2]))
        if name in ("emit_const", "emit_const_real"):
            return self.const(a[1])
        if name in ("mir_const", "mir_const_real"):
            return self.const(a[2])
        if name in ("emit_arith",):
            return self.opnode(a[0], a[1:3])
        if name == "mir_build_arith":
            return self.opnode(a[1], a[3:5])
        m = re.match(r"mir_build_(\d)$", name)
        if m:
            return self.opnode(a[1], a[4:])
        m = re.match(r"(emit|mir_build)_(?:trap_)?(\w+)$", name)
        if m and ("VCODE_OP_" + m.group(2).upper()) in OPNAME:
            op = m.group(2)
            args = list(a)
            if "_trap_" not in name:
                self.plain = True
            if m.group(1) == "mir_build":
                args = args[1:]
                if op in B2 or op in ("neg", "abs", "cast", "select"):
                    args = args[1:]
            if op == "cast":
                args = args[-1:]
            elif op in B2 or op in LOGIC:
                args = args[:2]
            elif op in ("neg", "abs", "not"):
                args = args[:1]
            return self.mknode(op, args)
        return None

    def mknode(self, op, args):
        vals = []
        for i, x in enumerate(args):
            if op == "cmp" and i == 0:
                vals.append(("n", enum_name(x) or x[1]) if is_n(x) else x)
                continue
            v = self.of(x)
            vals.append(x if v is None else v)
        return node(op, *vals)

    def opnode(self, op, args):
        nm = enum_name(op)
        if nm is None and op[0] == "p":
            return node(op, *[self.of(x) or x for x in args])
        o = OPNAME.get(nm)
        if o is not None and "_TRAP_" not in nm:
            self.plain = True
        if o is None:
            return node(nm, *[self.of(x) or x for x in args])
        args = list(args)
        if o in B2 or o in LOGIC:
            args = args[:2]
        elif o in ("neg", "abs", "not", "cast"):
            args = args[:1]
        elif o == "cmp":
            args = [unwrap_enum(args[0])] + args[1:]
        return self.mknode(o, args)

    def built(self, opref):
        """operation created on this path"""
        b = opref[1] if opref[0] == "deref" else opref
        if b[0] != "op":
            return None
        kind = b[1]
        args = self.c.st.ops.get(b, [])
        nm = enum_name(kind)
        o = OPNAME.get(nm, nm)
        if nm and "_TRAP_" not in nm:
            self.plain = True
        if o == "cmp":
            f = self.c.st.mem.get(("field", ("deref", b), "cmp"))
            args = [f] + args if f is not None else args
        return self.mknode(o, args)

    def reused(self, base):
        """an operation found in the block: what is known of it on this path"""
        args, fields, kind = {}, {}, None
        for t, pol in self.c.raw:
            if t[0] != "cmp" or not ((t[1] == "==" and pol) or (t[1] == "!=" and not pol)):
                if t[0] == "call" and t[1] == "vtype_eq" and pol and len(t[2]) == 2:
                    for x, y in (t[2], t[2][::-1]):
                        if x[0] == "load":
                            b, fs = fields_of(x)
                            if b == base and len(fs) == 1:
                                fields[fs[0]] = y
                continue
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] != "load":
                    continue
                b, fs = fields_of(x)
                if b != base:
                    continue
                if fs == ["kind"]:
                    kind = y
                elif len(fs) == 3 and fs[:2] == ["args", "items"] and fs[2][0] == "[]" and is_n(fs[2][1]):
                    args[fs[2][1][1]] = y
                elif len(fs) == 1:
                    fields[fs[0]] = y
        if kind is None:
            return None
        nm = enum_name(kind)
        if nm is None and is_n(kind):
            nm = VK.get(kind[1])
        o = OPNAME.get(nm, nm) if nm else kind
        al = [args.get(i, ("any", i)) for i in range(max(args, default=-1) + 1)]
        if o == "cmp":
            al = [fields.get("cmp", ("any", "cmp"))] + al
        return self.mknode(o, al) if isinstance(o, str) else node(o, *al)


VK = {}


def unwrap_enum(t):
    if t[0] == "call" and t[1] == "mir_enum":
        return t[2][0]
    return t


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if t[0] == "p":
        return str(t[1])
    if t[0] == "n":
        return str(t[2] if len(t) > 2 else t[1])
    if t[0] == "node":
        return "%s(%s)" % (t[1] if isinstance(t[1], str) else show(t[1]), ", ".join(show(x) for x in t[2:]))
    if t[0] in ("lo", "hi"):
        return "%s(%s)" % t
    if t[0] == "cmp":
        return "%s %s %s" % (show(t[2]), t[1], show(t[3]))
    if t[0] in ("+", "-", "*", "/", "%", "&&", "||", "^"):
        return "(%s %s %s)" % (show(t[1]), t[0], show(t[2]))
    if t[0] == "!":
        return "!" + show(t[1])
    if t[0] == "?":
        return "(%s ? %s : %s)" % tuple(show(x) for x in t[1:4])
    if t[0] == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    if t[0] == "load":
        b, fs = fields_of(t)
        return "%s->%s" % (show(b), ".".join(x if isinstance(x, str) else "[%s]" % show(x[1]) for x in fs))
    return str(t)[:60]


# ---------------------------------------------------------------- equality
CMPS = {"EQ": "==", "NEQ": "!=", "NE": "!=", "LT": "<", "GT": ">", "LEQ": "<=", "LE": "<=", "GEQ": ">=", "GE": ">="}
ARITH = {"add": "+", "sub": "-", "mul": "*"}


def arithform(t, c):
    """nodes of ring operations as terms"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "node":
        args = [arithform(x, c) for x in t[2:]]
        if t[1] in ARITH and len(args) == 2:
            return (ARITH[t[1]], args[0], args[1])
        if t[1] == "neg":
            return ("-", N(0), args[0])
        if t[1] == "div":
            return ("/", args[0], args[1])
        return node(t[1], *args)
    if t[0] == "u-":
        return ("-", N(0), arithform(t[1], c))
    if t[0] in ("+", "-", "*", "/", "%", "?", "cmp", "!", "&&", "||", "^"):
        return (t[0],) + tuple(arithform(x, c) if isinstance(x, tuple) else x for x in t[1:])
    return t


def nonzero(c, t):
    o = c.order()
    z = N(0)
    if o.prove(">", t, z) or o.prove("<", t, z):
        return True
    k = poly(t, c.subst)
    if len(k) == 1 and () in k:
        return k[()] != 0
    return any(f == ("cmp", "!=", t, z) and pol or f == ("cmp", "==", t, z) and not pol for f, pol in c.facts)


def differs(c, t, k):
    o = c.order()
    if o.prove(">", t, N(k)) or o.prove("<", t, N(k)):
        return True
    p = poly(t, c.subst)
    if set(p) <= {()}:
        return p.get((), 0) != k
    return any(f == ("cmp", "!=", t, N(k)) and pol or f == ("cmp", "==", t, N(k)) and not pol for f, pol in c.facts)


MIN64 = -(1 << 63)


def same_arith(got, want, c):
    got, want = arithform(got, c), arithform(want, c)
    if folds.pkey(poly(got, c.subst)) == folds.pkey(poly(want, c.subst)):
        return True, None
    if want[0] == "/":
        l, r = want[1:]
        if got[0] == "/" and got[1:] == (l, r):
            return True, None
        pr = poly(r, c.subst)
        if pr == {(): 1}:
            return folds.pkey(poly(got, c.subst)) == folds.pkey(poly(l, c.subst)), "quotient by one"
        if pr == {(): -1}:
            return folds.pkey(poly(got, c.subst)) == folds.pkey(poly(("-", N(0), l), c.subst)), "quotient by minus one"
    return False, None


def guard_div(c, l, r):
    if not nonzero(c, r):
        return "the divisor may be zero"
    if not (differs(c, r, -1) or differs(c, l, MIN64)):
        return "the quotient of the smallest integer and -1 is not representable"
    return None


def truth(t, env, c):
    """evaluate a term over single bits"""
    if t in env:
        return env[t]
    if is_n(t):
        return int(bool(t[1]))
    if t[0] == "p":
        s = c.subst.get(t)
        return env.get(s) if s is not None and not is_n(s) else (int(bool(s[1])) if s else env.get(t))
    if t[0] == "node":
        a = [truth(x, env, c) for x in t[2:]]
        if None in a:
            return None
        f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y,
             "xnor": lambda x, y: 1 - (x ^ y), "nand": lambda x, y: 1 - (x & y), "nor": lambda x, y: 1 - (x | y),
             "not": lambda x: 1 - x}.get(t[1])
        return f(*a) if f else None
    if t[0] == "!":
        v = truth(t[1], env, c)
        return None if v is None else 1 - v
    if t[0] in ("&&", "||", "^", "&", "|"):
        a, b = truth(t[1], env, c), truth(t[2], env, c)
        if a is None or b is None:
            return None
        return {"&&": a & b, "&": a & b, "||": a | b, "|": a | b, "^": a ^ b}[t[0]]
    if t[0] == "cmp":
        a, b = truth(t[2], env, c), truth(t[3], env, c)
        if a is None or b is None:
            return None
        return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[t[1]])
    if t[0] == "?":
        v = truth(t[1], env, c)
        return None if v is None else truth(t[2] if v else t[3], env, c)
    return None


def same_logic(got, want, c):
    ps = [x for x in want[2:]]
    for bits in range(1 << len(ps)):
        env = {p: bits >> i & 1 for i, p in enumerate(ps)}
        bad = False
        for f, pol in c.facts:
            v = truth(f, env, c)
            if v is not None and bool(v) != pol:
                bad = True
        for a, b in c.subst.items():
            if a in env:
                v = env.get(b) if not is_n(b) else int(bool(b[1]))
                if v is not None and v != env[a]:
                    bad = True
        if bad:
            continue
        g, w = truth(got, env, c), truth(want, env, c)
        if g is None:
            return None
        if g != w:
            return False
    return True


def rel(op, r):
    return {"==": r == 0, "!=": r != 0, "<": r < 0, ">": r > 0, "<=": r <= 0, ">=": r >= 0}[op]


def same_relation(got, c, l, r, pred):
    """pred(r): the value wanted when l compares to r as r (-1, 0, 1)"""
    why = None
    for rr, op in ((-1, "<"), (0, "=="), (1, ">")):
        extra = [(op, l, r)]
        for x in (l, r):
            if x[0] == "p":
                extra += [("<=", ("lo", x[1]), x), ("<=", x, ("hi", x[1]))]
        o = c.order(extra)
        if o.infeasible():
            continue
        # contradictory disequalities
        if rr == 0 and any((f == ("cmp", "!=", l, r) and pol) or (f == ("cmp", "==", l, r) and not pol)
                           for f, pol in c.facts):
            continue
        if c.subst.get(r) == l and rr != 0:
            continue
        w = pred(rr)
        g = relvalue(got, o, l, r, rr)
        if g is None:
            return None, "not decided for %s %s %s" % (show(l), op, show(r))
        if w is None:
            continue
        if int(g) != int(w):
            why = "wrong when %s %s %s" % (show(l), op, show(r))
            return False, why
    return True, None


def relvalue(t, o, l, r, rr):
    if is_n(t):
        return int(bool(t[1]))
    if t[0] == "node" and t[1] == "cmp" and is_n(t[2]):
        op = CMPS.get(str(t[2][1]).rsplit("_", 1)[-1])
        if op is None:
            return None
        t = ("cmp", op, t[3], t[4])
    if t[0] == "node" and t[1] == "not":
        v = relvalue(t[2], o, l, r, rr)
        return None if v is None else 1 - v
    if t[0] == "!":
        v = relvalue(t[1], o, l, r, rr)
        return None if v is None else 1 - v
    if t[0] == "cmp":
        if t[2:] == (l, r):
            return rel(t[1], rr)
        if t[2:] == (r, l):
            return rel(t[1], -rr)
        for op, neg in ((t[1], False), ({"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[t[1]], True)):
            if op in ("<", "<=", ">", ">=") and o.prove(op, t[2], t[3]):
                return int(not neg)
    if t[0] == "?":
        v = relvalue(t[1], o, l, r, rr)
        if v is None:
            return None
        return relvalue(t[2] if v else t[3], o, l, r, rr)
    return None


def wanted(fn, op):
    """the meaning the name of a builder promises, over its parameters"""
    names = [fn.varname(p) for p in fn.params]
    mir = fn.file == M
    ps = [P(x) for x in names]
    if mir:
        ps = ps[1:]
        if op in B2 or op in ("neg", "abs", "cast", "select"):
            ps = ps[1:]
    if op == "cast":
        return node(op, ps[-1])
    if op in B2 or op in LOGIC:
        return node(op, *ps[:2])
    if op in ("neg", "abs", "not"):
        return node(op, ps[0])
    return node(op, *ps[:3])


def judge(got, want, c):
    """(True, '') / (False, why) / (None, why)"""
    op = want[1]
    if got is None:
        return None, "the result is not understood"
    g2 = substitute(got, c)
    w2 = substitute(want, c)
    if g2 == w2:
        return True, ""
    if op in ARITH or op == "neg":
        ok, why = same_arith(got, want, c)
        return ok, why or ""
    if op == "div":
        l, r = want[2:]
        ok, why = same_arith(got, want, c)
        if not ok:
            return False, why or ""
        if not got[0] == "node" and "/" in flat(arithform(got, c)):
            g = guard_div(c, l, r)
            if g:
                return False, g
        return True, ""
    if op in ("rem", "mod"):
        l, r = want[2:]
        pr = poly(r, c.subst)
        if got[0] == "node" and got[1] in ("rem", "mod") and got[1] != op and got[2:] == want[2:]:
            o = c.order()
            if (o.prove(">=", ("lo", l[1]), N(0)) or o.prove(">=", l, N(0))) and \
                    (o.prove(">=", ("lo", r[1]), N(0)) or o.prove(">=", r, N(0))):
                return True, ""
            return False, "mod and rem differ when an operand is negative"
        if got == ("%", l, r):
            if not nonzero(c, r):
                return False, "the divisor may be zero"
            if op == "mod":
                o = c.order()
                if not (o.prove(">=", l, N(0)) and o.prove(">", r, N(0))):
                    return False, "mod of negative operands is not the remainder"
            if op == "rem" and not (differs(c, r, -1) or differs(c, l, MIN64)):
                return False, "the remainder of the smallest integer and -1 traps"
            return True, ""
        if is_n(got) and got[1] == 0 and pr in ({(): 1}, {(): -1}):
            return True, ""
        o = c.order()
        if got == l and o.prove(">=", ("lo", l[1]), N(0)) and o.prove("<", ("hi", l[1]), ("lo", r[1])):
            return True, ""
        return False, ""
    if op == "exp":
        l, r = want[2:]
        pr, pl = poly(r, c.subst), poly(l, c.subst)
        if pr == {} and is_n(g2) and g2[1] == 1:
            return True, ""
        if pr == {(): 1} and folds.pkey(poly(got, c.subst)) == folds.pkey(poly(l, c.subst)):
            return True, ""
        if pr == {(): 2} and folds.pkey(poly(arithform(got, c), c.subst)) == folds.pkey(poly(("*", l, l), c.subst)):
            return True, ""
        if pl == {(): 1} and is_n(g2) and g2[1] == 1:
            return True, ""
        if got[0] == "call" and got[1].startswith("ipow") and got[2] == (l, r) or got == ("ipow", l, r):
            return True, ""
        return False, ""
    if op == "abs":
        x = want[2]
        o = c.order()
        if got[0] == "call" and got[1] in ("llabs", "labs", "fabs") and norm(got[2][0]) == x:
            return True, ""
        if got[0] == "abs" and got[1] == x:
            return True, ""
        if got == x and (o.prove(">=", ("lo", x[1]), N(0)) or o.prove(">=", x, N(0))):
            return True, ""
        return False, ""
    if op == "not" and got[0] == "arg":
        x = want[2]
        return got == ("arg", x, N(0)) and OPNAME.get(known_op(c, x)) == "not", "the operand is not a negation"
    if op in LOGIC or op == "not":
        r = same_logic(got, want, c)
        return r, "" if r is not None else "not a function of the operands' bits"
    if op == "cmp" and got[0] == "out" and got[1] == "mir_stamp_const":
        st = [x for x in got[3] if x[0] == "call"]
        ok = len(st) == 1 and st[0][1] == "mir_stamp_cmp" and st[0][2][1] == want[2] and \
            [x[2][-1] if x[0] == "call" and x[1] == "mir_get_stamp" else None for x in st[0][2][2:4]] == list(want[3:5]) \
            and any(f[0] == "call" and f[1] == "mir_stamp_const" and pol and st[0] in f[2] for f, pol in c.raw)
        return ok, "the stamp is not that of this comparison"
    if op == "cmp":
        k, l, r = want[2:]
        kk = c.subst.get(k)
        okall = True
        for nm, v in CMPVALS.items():
            if nm.startswith("MIR") != (c.fn.file == M):
                continue
            if kk is not None and is_n(kk) and kk[1] != v:
                continue
            if any(f[0] == "noneof" and f[1] == k and v in f[2] or f == ("cmp", "==", k, ("n", v)) and not pol
                   or f[0] == "oneof" and f[1] == k and v not in f[2]
                   for f, pol in c.facts):
                continue
            suf = nm.rsplit("_", 1)[1]
            if suf not in CMPS:
                continue
            ok, why = same_relation(got, c, l, r, lambda rr: rel(CMPS[suf], rr))
            if ok is None:
                return None, why
            if not ok:
                return False, "%s (%s)" % (why, suf)
        return True, ""
    if op == "select":
        t, a, b = want[2:]
        o = c.order()
        if c.subst.get(t) == N(0) or truthfact(c, t) is False:
            return g2 == substitute(b, c), ""
        if truthfact(c, t) or t in c.subst and is_n(c.subst[t]):
            return g2 == substitute(a, c), ""
        if got[0] == "?" and got[1] == t:
            return got[2] == a and got[3] == b, ""
        if c.subst.get(b) == a or c.subst.get(a) == b:
            return got in (a, b), ""
        return False, ""
    if op == "cast":
        x = want[2]
        return got == x, ""
    if op == "range_null":
        l, r, d = want[2:]
        dv = direction(c, d)
        if dv is None:
            return None, "the direction is not known"
        if dv == "none":
            return True, ""         # a direction that is neither
        return same_relation(got, c, l, r, (lambda rr: rr > 0) if dv == "to" else (lambda rr: rr < 0))
    if op == "range_length":
        l, r, d = want[2:]
        dv = direction(c, d)
        if dv is None:
            return None, "the direction is not known"
        diff = ("-", r, l) if dv == "to" else ("-", l, r)
        pos = ("+", diff, N(1))
        # the length is max(0, diff + 1)
        g = got
        if g[0] == "?":
            o1 = clone(c, ((g[1], True),))
            o2 = clone(c, ((g[1], False),))
            for cc, v in ((o1, g[2]), (o2, g[3])):
                if not length_ok(cc, v, diff, pos):
                    return False, ""
            return True, ""
        if g[0] == "max":
            ks = {folds.pkey(poly(x, c.subst)) for x in g[1]}
            return ks == {folds.pkey({}), folds.pkey(poly(pos, c.subst))}, ""
        return length_ok(c, g, diff, pos), ""
    return None, "no rule"


def length_ok(c, v, diff, pos):
    o = c.order()
    k = folds.pkey(poly(v, c.subst))
    if k == folds.pkey({}):
        return o.prove("<", diff, N(0)) or o.prove("<=", pos, N(0)) or linear(c, diff, "<")
    if k == folds.pkey(poly(pos, c.subst)):
        return o.prove(">=", diff, N(0)) or o.prove(">", pos, N(0)) or o.prove(">=", pos, N(0)) or linear(c, diff, ">=")
    return False


def linear(c, diff, op):
    """diff < 0 or diff >= 0 from a comparison of its two ends"""
    k = poly(diff, c.subst)
    for f, pol in c.facts:
        if f[0] != "cmp":
            continue
        o = f[1] if pol else {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}[f[1]]
        for sg in (1, -1):
            d = poly(("-", f[2], f[3]) if sg == 1 else ("-", f[3], f[2]), c.subst)
            oo = o if sg == 1 else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
            if d == k:
                if oo == op or op == ">=" and oo in (">", "=="):
                    return True
    return False


def clone(c, extra):
    n = Case.__new__(Case)
    n.fn, n.st, n.node, n.val, n.isconst, n.raw = c.fn, c.st, c.node, c.val, c.isconst, c.raw
    n.facts, n.subst = list(c.facts) + list(extra), dict(c.subst)
    return n


RANGE = {}


def direction(c, d):
    v = c.subst.get(d)
    if v is not None and is_n(v):
        return RANGE.get(v[1])
    out = set(RANGE.values())
    for f, pol in c.facts:
        if f[0] == "cmp" and f[1] == "==" and f[2] == d and is_n(f[3]) and not pol:
            out.discard(RANGE.get(f[3][1]))
        if f[0] == "cmp" and f[1] == "!=" and f[2] == d and is_n(f[3]) and pol:
            out.discard(RANGE.get(f[3][1]))
    # a direction known to be constant is TO or DOWNTO
    if not out and P_is_const(c, d):
        return "none"
    return out.pop() if len(out) == 1 and P_is_const(c, d) else None


def known_op(c, x):
    """the operation that made this value, if the path tested it"""
    for f, pol in c.raw:
        if f[0] == "cmp" and ((f[1] == "==") == pol) and f[1] in ("==", "!="):
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                if a[0] == "call" and a[1] == "mir_get_op" and a[2][-1] == x:
                    return enum_name(b)
    return None


def P_is_const(c, d):
    return ("cv", d) in c.isconst


def truthfact(c, t):
    for f, pol in c.raw:
        if norm(f) == t and f[0] == "cv":
            return pol
    for f, pol in c.facts:
        if f == ("cmp", "!=", t, N(0)):
            return pol
        if f == ("cmp", "==", t, N(0)):
            return not pol
    return None


def flat(t):
    if not isinstance(t, tuple):
        return (t,)
    return tuple(y for x in t for y in flat(x))


def substitute(t, c):
    if not isinstance(t, tuple) or not t:
        return t
    if t in c.subst:
        return c.subst[t]
    if t[0] == "n":
        return ("n", t[1])
    if t[0] in ("p", "call", "load"):
        return t
    return (t[0],) + tuple(substitute(x, c) if isinstance(x, tuple) else x for x in t[1:])


CMPVALS = {}


def setup(prog):
    CMPVALS.clear()
    for en, vals in prog.enums.items():
        for v, nm in enumpairs(vals):
            if re.match(r"(VCODE|MIR)_CMP_[A-Z]+$", nm):
                CMPVALS[nm] = v
            elif nm.startswith("VCODE_OP_"):
                VK[v] = nm
            elif nm in ("RANGE_TO", "RANGE_DOWNTO"):
                RANGE[v] = {"RANGE_TO": "to", "RANGE_DOWNTO": "downto"}[nm]


def enumpairs(vals):
    for a, b in vals:
        yield (a, b) if isinstance(b, str) else (b, a)


def demotable(op, want, c, me):
    """an operation that traps may be replaced by one that does not"""
    if op == "neg":
        x = want[2]
        o = c.order()
        return (o.prove(">=", ("lo", x[1]), N(0)) or o.prove(">=", x, N(0))), "the operand may be the smallest integer"
    if op not in ARITH:
        return True, ""
    l, r = want[2:]
    for f, pol in c.raw:
        if f[0] != "fits" or not pol:
            continue
        lo, hi = norm(f[1]), norm(f[2])
        if not sound(op, l, r, lo, hi, c):
            return False, "the range compared with the representation does not cover the result"
        if any(x in ("s+", "s-", "s*") for x in flat(f[1:])):
            return False, "saturated bounds of 64-bit operands always fit the representation"
        return True, ""
    return False, "nothing on this path shows that the result fits"


def corners(op, l, r):
    s = ARITH[op]
    return [(s, (a, l[1]), (b, r[1])) for a in ("lo", "hi") for b in ("lo", "hi")]


def nonneg(p):
    """polynomial is a sum of hi(x) - lo(x) terms and non-negative constants"""
    p = dict(p)
    for m in list(p):
        if len(m) == 1 and m[0][0] == "hi" and p[m] > 0:
            k = p[m]
            lo = (("lo", m[0][1]),)
            if p.get(lo, 0) != -k:
                return False
            del p[m], p[lo]
    return all(m == () and v >= 0 for m, v in p.items())


def alts(t, kind):
    return list(t[1]) if t[0] == kind else [t]


def below(lo, x, c):
    """lo <= x; lo may be a minimum of several"""
    if is_n(lo) and (lo[1] == MIN64 or lo[1] == "-inf"):
        return True
    return any(nonneg(poly(("-", x, a), c.subst)) or c.order().prove("<=", a, x) for a in alts(lo, "min"))


def above(hi, x, c):
    if is_n(hi) and hi[1] == (1 << 63) - 1:
        return True
    return any(nonneg(poly(("-", a, x), c.subst)) or c.order().prove(">=", a, x) for a in alts(hi, "max"))


def sound(op, l, r, lo, hi, c):
    if op in ARITH:
        return all(below(lo, x, c) and above(hi, x, c) for x in corners(op, l, r))
    o = c.order()
    if op == "div":
        cl = [("/", (e, l[1]), r) for e in ("lo", "hi")]
        a, b = ("lo", l[1]), ("hi", l[1])
        if lo == ("/", a, r) and hi == ("/", b, r):
            return o.prove(">", r, N(0))
        if lo == ("/", b, r) and hi == ("/", a, r):
            return o.prove("<", r, N(0)) and differs_bound(c, a, r)
        return is_wide(lo, hi)
    if op in ("rem", "mod"):
        # both non-negative: 0 .. hi(right) - 1, also 0 .. hi(left)
        if not (o.prove(">=", ("lo", l[1]), N(0)) and o.prove(">=", ("lo", r[1]), N(0))):
            return is_wide(lo, hi)
        top = ("-", ("hi", r[1]), N(1))
        return below(lo, N(0), c) and (above(hi, top, c) or op == "rem" and above(hi, ("hi", l[1]), c))
    return is_wide(lo, hi)


def differs_bound(c, a, r):
    """the lower bound divided by a negative constant is representable"""
    return any((f == ("cmp", "!=", a, N(MIN64)) and pol) or (f == ("cmp", "==", a, N(MIN64)) and not pol)
               or (f == ("cmp", ">", a, N(MIN64)) and pol) for f, pol in c.facts) or differs(c, r, -1)


def is_wide(lo, hi):
    return is_n(lo) and is_n(hi) and (lo[1] == MIN64 and hi[1] == (1 << 63) - 1) or \
        "INFINITY" in str(hi) or "inf" in str(hi)


def bounds_stored(c, val):
    """bounds recorded for the value returned: (low, high, node) of the last store"""
    out = None
    for e in c.st.events:
        if e[0] == "store" and e[1][0] == "field" and e[1][2] == "bounds":
            b = e[1][1]
            if b[0] == "deref" and b[1][0] == "call" and b[1][1] == "vcode_reg_data" and b[1][2][0] == val:
                out = e[2]
    return out


def run(prog, rep):
    rep.rule("value", "on every path, what a builder returns equals the operation its name promises, under the path's facts")
    rep.rule("trap", "an operation that checks for overflow is replaced by one that does not only where none can occur")
    rep.rule("bounds", "the bounds recorded for a result contain every value the operation can produce")
    rep.rule("reuse", "an earlier operation is reused only if it is the same operation on the same operands and fields")
    rep.rule("wrapped", "a part taken from the operation that built an array descriptor is the part asked for")
    rep.rule("memory", "a load is not answered from an earlier operation across one that may write the same place, "
             "nor a store dropped across one that may read it")
    rep.rule("dropped", "an operation with an effect is left out only where it would have none")
    setup(prog)
    STATICS.clear()
    STATICS.update({f.name: f for f in prog.fns if f.file == V and f.static and f.name.startswith("emit_")})
    q = folds.Paths(prog, HOOKS, inline=inline)
    for fn in sorted(prog.fns, key=lambda f: (f.file, f.line)):
        m = re.match(r"(?:emit|mir_build)_(trap_)?(\w+)$", fn.name)
        if not m or fn.static or fn.file not in (V, M):
            continue
        op, trap = m.group(2), m.group(1)
        binds = {p: P(fn.varname(p)) for p in fn.params}
        if "VCODE_OP_" + op.upper() in OPNAME:
            value_rule(rep, q, fn, op, trap, binds)
        elif op in PART:
            part_rule(rep, q, fn, op, binds)
        elif fn.file == V:
            reuse_rule(rep, q, fn, binds)
        if fn.ret == "void" and op in IDLE:
            dropped_rule(rep, q, fn, op, binds)
    rep.require("dropped", 8)
    stamps(prog, rep)
    memory(prog, rep, q)
    rep.require("memory", 20)
    rep.require("value", 90)
    rep.require("trap", 10)
    rep.require("bounds", 30)
    rep.require("reuse", 15)
    rep.require("wrapped", 8)


# what shows that the operation would do nothing; operands are counted without the unit
IDLE = {"copy": (("zero", 2), ("same", 0, 1)), "set": (("zero", 2),), "memset": (("zero", 2),),
        "sched_waveform": (("zero", 1),), "zero_check": (("nonzero", 0),), "length_check": (("same", 0, 1),),
        "exponent_check": (("nonneg", 0),), "assert": (("nonzero", 0),),
        "drive_signal": (), "transfer_signal": (), "disconnect": (), "store": (), "store_indirect": (), "report": (),
        "deallocate": (), "force": (), "release": (), "file_open": (), "file_read": (), "file_write": (),
        "sched_event": (), "clear_event": (), "implicit_event": (), "map_signal": (), "map_const": (),
        "map_implicit": (), "resolve_signal": (), "alias_signal": (), "null_check": (), "wait": (), "return": (),
        "add_trigger": (), "package_init": (), "convert_in": (), "convert_out": (), "put_conversion": (), "put_driver": (),
        "deposit_signal": (), "sched_process": (), "sched_active": (), "sched_inactive": (), "sched_deposit": (),
        "process_init": (), "array_scope": (), "record_scope": (), "package_scope": (), "pop_scope": (),
        "init_signal": (), "bind_foreign": (), "dir_check": (), "cover_stmt": (), "cover_branch": (), "cover_expr": (),
        "cover_toggle": ()}
ADDS = re.compile(r"vcode_add_op|vcode_add_arg|mir_build_|mir_add_node|emit_(?!comment)")


def dropped_rule(rep, q, fn, op, binds):
    ps = [p for p in fn.params if "mir_unit_t" not in fn.vartype(p)]
    for st, val, n in q.run(fn, binds):
        if st.ops or any(e[0] == "call" and ADDS.match(e[1]) for e in st.events):
            continue
        if any(pol and f[0] == "cmp" and f[1] == "==" and "kind" in str(f[2]) and "OP_" in show(f) for f, pol in st.facts):
            continue                       # an equal operation exists: rules reuse and P12
        c = Case(fn, st, None, n if n is not None and n >= 0 else fn.body)
        o = c.order()
        if o.infeasible():
            continue

        def holds(j):
            a = P(fn.varname(ps[j[1]]))
            cv = a
            if j[0] == "zero":
                return o.prove("==", cv, N(0)) or (o.prove(">=", cv, N(0)) and o.prove("<=", cv, N(0)))
            if j[0] == "nonzero":
                return differs(c, cv, 0) or any(f == cv and pol for f, pol in c.facts)
            if j[0] == "nonneg":
                return o.prove(">=", cv, N(0))
            b = P(fn.varname(ps[j[2]]))
            return o.prove("==", a, b) or c.subst.get(b) == a or c.subst.get(a) == b
        rep.check("dropped", any(holds(j) for j in IDLE[op] if max(j[1:]) < len(ps)),
                  "%s:%s" % (fn.name, ";".join(("" if pol else "!") + show(f) for f, pol in c.facts)[:80]), c.loc(),
                  "%s leaves the operation out on a path where it would have an effect" % fn.name)


def value_rule(rep, q, fn, op, trap, binds):
    want = wanted(fn, op)
    paths = q.run(fn, binds)
    rep.count("paths", len(paths))
    for st, val, n in paths:
        if val is None:
            continue
        c = Case(fn, st, val, n)
        if c.order().infeasible():
            continue
        me = Meaning(c)
        got = me.of(val)
        loc = c.loc()
        if me.problem:
            rep.bad("value", "%s:%s" % (fn.name, me.problem), loc, "%s: %s" % (fn.name, me.problem))
            continue
        ok, why = judge(got, want, c)
        if not ok:
            txt = show(got) if got is not None else show(val)
            if ok is None:
                rep.bad("value", "%s:%s" % (fn.name, txt), loc, "%s: cannot show that %s is %s: %s" %
                        (fn.name, txt, show(want), why))
            else:
                rep.bad("value", "%s:%s" % (fn.name, txt), loc, "%s returns %s where %s is wanted%s [%s]" %
                        (fn.name, txt, show(want), ": " + why if why else "",
                         "; ".join(("" if pol else "not ") + show(f) for f, pol in c.facts)[:200]))
            continue
        rep.ok("value", loc)
        reused = val[0] == "load"
        if trap and got[0] == "node" and not reused:
            d, why = demotable(op, want, c, me) if me.plain else (True, "")
            rep.check("trap", d, "%s:%s%s" % (fn.name, got[1], ":saturated" if why.startswith("saturated") else ""), loc,
                      "%s leaves out the overflow check: %s" % (fn.name, why))
        elif trap and op == "neg":
            d, why = demotable(op, want, c, me)
            rep.check("trap", d, "%s:%s" % (fn.name, show(got)), loc,
                      "%s leaves out the overflow check: %s" % (fn.name, why))
        if got[0] != "node":
            continue
        if fn.file == V:
            b = bounds_stored(c, val)
            if b is not None and b[0] == "call" and b[1] in ("vtype_int", "vtype_real"):
                good = recorded(op, want, norm(b[2][0]), norm(b[2][1]), c, fn)
                rep.check("bounds", good, "%s:%s..%s" % (fn.name, show(norm(b[2][0]))[:60], show(norm(b[2][1]))[:60]), loc,
                          "%s records bounds %s .. %s, which need not contain the result" %
                          (fn.name, show(norm(b[2][0])), show(norm(b[2][1]))))
        elif val[0] == "call":
            stamp_used(rep, fn, op, got, want, val, c, loc)


def recorded(op, want, lo, hi, c, fn):
    if op == "cast":
        # every part of the intersection must be a bound of the type, the operand or the given subtype
        ok = {(k, x) for k in ("lo", "hi") for x in [fn.varname(p) for p in fn.params]}
        return set(alts(lo, "max")) <= {x for x in ok if x[0] == "lo"} and \
            set(alts(hi, "min")) <= {x for x in ok if x[0] == "hi"}
    if op in ("range_length", "uarray_len"):
        return below(lo, N(0), c) and is_n(hi)
    if op in ("neg", "abs", "select", "cmp"):
        return False
    l, r = want[2:4]
    return sound(op, l, r, lo, hi, c)


def stamp_of(t):
    return t[2][-1] if t[0] == "call" and t[1] == "mir_get_stamp" else None


def stamp_used(rep, fn, op, got, want, val, c, loc):
    """the stamp given to the MIR node must be computed by the stamp function of that operation from its operands"""
    st = None
    for a in val[2]:
        if a[0] == "call" and a[1].startswith("mir_stamp_") or a[0] == "call" and a[1] in (
                "mir_int_stamp", "mir_real_stamp", "mir_get_stamp"):
            st = a
    if st is None:
        return
    o = got[1]
    args = [x for x in st[2]]
    ops = [stamp_of(x) for x in args]
    table = {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "rem": "rem", "select": "union", "cast": "cast",
             "cmp": "cmp"}
    ok = st[1] == "mir_stamp_" + table.get(o, "?")
    if ok and o in B2:
        ok = ops[1:3] == list(got[2:4])
    elif ok and o == "select":
        ok = sorted(map(str, ops[1:3])) == sorted(map(str, got[3:5]))
    elif ok and o == "cmp":
        ok = args[1] == want[2] and ops[2:4] == list(got[3:5])
    elif ok and o == "cast":
        ok = args[1] == P("type") and ops[2] == got[2]
    rep.check("bounds", ok, "%s:%s" % (fn.name, st[1]), loc, "%s gives the result of %s the range %s" %
              (fn.name, show(got), show(st)))


# ---------------------------------------------------------------- ranges of MIR values
def stamps(prog, rep):
    q = folds.Paths(prog, dict(HOOKS), inline=inline)
    for fn in sorted(prog.fns, key=lambda f: (f.file, f.line)):
        m = re.match(r"mir_stamp_(add|sub|mul|div|rem|mod|union|cast|cmp|neg|abs|not|exp)$", fn.name)
        if not m or fn.file != T:
            continue
        op = m.group(1)
        names = [fn.varname(p) for p in fn.params]
        ps = [P(x) for x in names if x != "mu"]
        for st, val, n in q.run(fn, {p: P(fn.varname(p)) for p in fn.params}):
            if val is None:
                continue
            c = Case(fn, st, val, n)
            loc = c.loc()
            if val[0] == "p":
                # a range handed on unchanged
                good = null_known(c, val) is True or op == "union" and c.subst.get(ps[0]) == ps[1]
                rep.check("bounds", good, "%s:%s" % (fn.name, show(val)), loc,
                          "%s takes the range of %s for that of the result" % (fn.name, show(val)))
                continue
            if val[0] != "call" or val[1] not in ("mir_int_stamp", "mir_real_stamp"):
                continue
            lo, hi = norm(val[2][1]), norm(val[2][2])
            key = "%s:%s..%s" % (fn.name, show(lo)[:60], show(hi)[:60])
            stampargs = [x for x in ps if x[1] not in ("cmp", "type")]
            unknown = [x for x in stampargs if null_known(c, x) is not False]
            if unknown:
                rep.bad("bounds", "%s:null:%s" % (fn.name, show(unknown[0])), loc,
                        "%s returns a range although that of %s may be unknown" % (fn.name, show(unknown[0])))
                continue
            if op == "union":
                l, r = ps
                good = all(below(lo, ("lo", x[1]), c) and above(hi, ("hi", x[1]), c) for x in (l, r))
            elif op == "cast":
                ok = [x[1] for x in ps]
                good = set(alts(lo, "max")) <= {("lo", x) for x in ok} and set(alts(hi, "min")) <= {("hi", x) for x in ok}
            elif op == "cmp":
                k, l, r = ps
                good, why = judge_stamp(c, k, l, r, lo, hi)
            elif op in ("not", "neg", "abs", "exp"):
                good = False
            else:
                l, r = ps
                good = sound(op, l, r, lo, hi, c)
            rep.check("bounds", good, key, loc, "%s: the range %s .. %s need not contain the result" %
                      (fn.name, show(lo), show(hi)))


def judge_stamp(c, k, l, r, lo, hi):
    if lo != hi:
        return below(lo, N(0), c) and above(hi, N(1), c), ""
    poss = possible(c, k)
    facts = []
    for f, pol in c.facts:
        facts.extend(expand(f, pol))
    for suf in poss:
        for rr, op in ((-1, "<"), (0, "=="), (1, ">")):
            extra = [(op, l, r)]
            for x in (l, r):
                extra += [("<=", ("lo", x[1]), x), ("<=", x, ("hi", x[1]))]
            feasible = False
            for alt in product(facts):
                o = Order([a for a in alt], extra, c.subst)
                if not o.infeasible():
                    feasible = True
            if not feasible:
                continue
            v = truth(lo, {}, c) if not is_n(lo) else int(bool(lo[1]))
            if v is None or bool(v) != bool(rel(CMPS[suf], rr)):
                return False, ""
    return True, ""


def expand(f, pol):
    """comparison with a minimum or maximum -> alternatives (list of lists of facts)"""
    if f[0] != "cmp" or f[1] not in ("<", "<=", ">", ">="):
        return [[[(f, pol)]]]
    op = f[1] if pol else {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}[f[1]]
    a, b = f[2], f[3]
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    # a < b with a = max: all of a; a = min: one of them; b = min: all; b = max: one
    aa, bb = alts(a, "max") if a[0] == "max" else alts(a, "min"), alts(b, "min") if b[0] == "min" else alts(b, "max")
    pairs_and_a = a[0] != "min"
    pairs_and_b = b[0] != "max"
    if pairs_and_a and pairs_and_b:
        return [[[(("cmp", op, x, y), True) for x in aa for y in bb]]]
    return [[[(("cmp", op, x, y), True)] for x in aa for y in bb]]


def product(groups):
    out = [[]]
    for g in groups:
        out = [o + alt for o in out for alt in g]
        if len(out) > 64:
            raise AnalysisError("too many alternatives")
    return out


def possible(c, k):
    out = []
    for nm, v in CMPVALS.items():
        if not nm.startswith("MIR"):
            continue
        if c.subst.get(k) is not None and is_n(c.subst[k]) and c.subst[k][1] != v:
            continue
        if any((f[0] == "noneof" and f[1] == k and v in f[2]) or (f[0] == "oneof" and f[1] == k and v not in f[2])
               or (f == ("cmp", "==", k, ("n", v)) and not pol) for f, pol in c.facts):
            continue
        suf = nm.rsplit("_", 1)[1]
        if suf in CMPS:
            out.append(suf)
    return out


def null_known(c, x):
    """True: known to be null, False: known not to be, None"""
    for f, pol in c.raw:
        if f[0] == "call" and f[1] == "mir_is_null" and f[2][-1] == x:
            return pol
        if f[0] == "cmp" and f[1] in ("==", "!=") and "'%s'" % x[1] in str(f[2]) and "tag" in str(f[2]):
            return (f[1] == "==") == pol
        if f[0] == "!" and f[1][0] == "call" and f[1][1] == "mir_is_null" and f[1][2][-1] == x:
            return not pol
    return None


# ---------------------------------------------------------------- parts of array descriptors
PART = {"unwrap": None, "uarray_left": 1, "uarray_right": 2, "uarray_dir": 3}


def part_rule(rep, q, fn, op, binds):
    names = [fn.varname(p) for p in fn.params if fn.varname(p) != "mu"]
    array = P(names[0])
    dim = P(names[1]) if len(names) > 1 else N(0)
    k = PART[op]
    want = N(0) if k is None else ("+", ("*", dim, N(3)), N(k))
    for st, val, n in q.run(fn, binds):
        if val is None:
            continue
        c = Case(fn, st, val, n)
        loc = c.loc()
        idx, isw = None, False
        if val[0] == "call" and val[1] == "mir_get_arg":
            idx = val[2][2]
            isw = known_op(c, array) == "MIR_OP_WRAP" and val[2][1] == array
        elif val[0] == "load":
            b, fs = fields_of(val)
            if len(fs) == 3 and fs[:2] == ["args", "items"]:
                idx = fs[2][1]
                me = Meaning(c)
                kind, res = facts_on(c, b, "kind"), facts_on(c, b, "result")
                isw = kind is not None and (enum_name(kind) or VK.get(kind[1])) == "VCODE_OP_WRAP" and res == array
            elif fs == ["result"]:
                me = Meaning(c)
                got = me.reused(b)
                good = got is not None and array in got[2:] and \
                    str(got[1]).endswith(op.upper()) and (k is None or facts_on(c, b, "dim") == dim)
                rep.check("reuse", good, "%s:%s" % (fn.name, show(got)), loc,
                          "%s reuses an earlier operation without comparing array, dimension and kind" % fn.name)
                continue
        if idx is None:
            continue
        good = isw and folds.pkey(poly(norm(idx), c.subst)) == folds.pkey(poly(want, c.subst))
        rep.check("wrapped", good, "%s:%s" % (fn.name, show(idx)), loc,
                  "%s takes operand %s of the wrap operation, not %s" % (fn.name, show(idx), show(want)))


def facts_on(c, base, field):
    for t, pol in c.raw:
        if t[0] == "cmp" and ((t[1] == "==" and pol) or (t[1] == "!=" and not pol)):
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == "load" and fields_of(x) == (base, [field]):
                    return y
    return None


def params_in(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, tuple):
        if t and t[0] == "p":
            acc.add(t)
        for x in t:
            params_in(x, acc)
    return acc


STATICS = {}


def loci(fn):
    """parameters that only say where in the source an error is reported"""
    out = set()
    for n in fn.walk():
        if fn.kind(n) == "call" and fn.callee(n) == "vcode_reg_kind":
            v = fn.var_of(fn.args(n)[0])
            up = fn.parent(n)
            while up is not None and fn.kind(up) in ("paren", "cast"):
                up = fn.parent(up)
            if v is not None and up is not None and fn.kind(up) == "bin" and "DEBUG_LOCUS" in fn.txt(up):
                out.add(P(fn.varname(v)))
        elif fn.kind(n) == "call" and fn.callee(n) in STATICS:
            g = STATICS[fn.callee(n)]
            inner = loci(g)
            for a, p in zip(fn.args(n), g.params):
                v = fn.var_of(a)
                if v is not None and P(g.varname(p)) in inner:
                    out.add(P(fn.varname(v)))
    return out


class Built:
    """the operation a builder creates: kind, operands and fields that depend on its parameters"""

    def __init__(self, st, op):
        self.kind = op[1]
        self.args = dict(enumerate(st.ops.get(op, [])))
        self.fields = {}
        for e in st.events:
            if e[0] == "store" and e[1][0] == "field" and e[1][1] == ("deref", op):
                self.fields[e[1][2]] = e[2]


def reuse_rule(rep, q, fn, binds):
    paths = q.run(fn, binds)
    built = [Built(st, op) for st, val, n in paths for op in st.ops if op[0] == "op"]
    if not built:
        return
    loc0 = loci(fn)
    idents = {fn.varname(p) for p in fn.params if "ident_t" in fn.vartype(p)}
    kinds = {b.kind[1] if is_n(b.kind) else b.kind for b in built}
    for st, val, n in paths:
        if any(op[0] == "op" for op in st.ops):
            continue
        c = Case(fn, st, val, n)
        if c.order().infeasible():
            continue
        base, same, lists = None, {}, set()
        for t, pol in st.facts:
            pairs = []
            if t[0] == "cmp" and ((t[1] == "==" and pol) or (t[1] == "!=" and not pol)):
                pairs = [(t[2], t[3]), (t[3], t[2])]
            elif t[0] == "call" and t[1] == "vtype_eq" and pol:
                pairs = [(t[2][0], t[2][1]), (t[2][1], t[2][0])]
            elif t[0] == "cmp" and t[1] == "==" and t[2][0] == "call" and t[2][1] == "memcmp" and pol:
                pairs = [(t[2][2][0], t[2][2][1]), (t[2][2][1], t[2][2][0])]
            for x, y in pairs:
                if x[0] == "call" and len(x[2]) == 1:
                    x = x[2][0]         # type of the result
                if x[0] != "load":
                    continue
                b, fs = fields_of(x)
                if fs == ["kind"]:
                    base = b
                    same.setdefault(b, {})["kind"] = y
                elif len(fs) == 3 and fs[:2] == ["args", "items"] and is_n(fs[2][1]):
                    same.setdefault(b, {})[fs[2][1][1]] = y
                elif fs == ["args", "count"]:
                    same.setdefault(b, {})["count"] = y
                elif len(fs) == 1:
                    same.setdefault(b, {})[fs[0]] = y
        if val is not None and val[0] == "load" and fields_of(val)[1] == ["result"]:
            base = fields_of(val)[0]
        if base is None or val is not None and val[0] != "load":
            continue
        have = same.get(base, {})
        k = have.get("kind")
        if k is None or (k[1] if is_n(k) else k) not in kinds:
            continue        # takes a part of a different operation
        loc = c.loc()
        for b in built:
            if (b.kind[1] if is_n(b.kind) else b.kind) != (k[1] if is_n(k) else k):
                continue
            for i, a in b.args.items():
                if a in loc0 or not params_in(a) or not all(i in b2.args for b2 in built):
                    continue
                rep.check("reuse", have.get(i) == a or c.subst.get(have.get(i)) == a, "%s:arg%d" % (fn.name, i), loc,
                          "%s reuses an earlier operation whose operand %d need not be %s" % (fn.name, i, show(a)))
            for f, v in sorted(b.fields.items(), key=str):
                if f in ("result", "type") or not params_in(v):
                    continue
                rep.check("reuse", have.get(f) == v, "%s:%s" % (fn.name, f), loc,
                          "%s reuses an earlier operation whose %s need not be %s" % (fn.name, f, show(v)))
            tp = [x for x in map(P, (fn.varname(p) for p in fn.params if "vcode_type_t" in fn.vartype(p)))
                  if any(params_in(v) & {x} for v in b.fields.values())]
            # the name of a subprogram carries its signature
            if any(v[0] == "p" and v[1] in idents and have.get(f) == v for f, v in b.fields.items()):
                tp = []
            for t in tp:
                ok = any(t in params_in(y) for y in have.values())
                rep.check("reuse", ok, "%s:type:%s" % (fn.name, show(t)), loc,
                          "%s reuses an earlier operation without comparing %s" % (fn.name, show(t)))


# ---------------------------------------------------------------- loads and stores
WRITERS = ["FCALL", "PCALL", "FILE_READ", "FILE_OPEN", "STORE_INDIRECT", "DEALLOCATE"]
STOPS = {"emit_load": (WRITERS, False), "emit_load_indirect": (WRITERS + ["STORE", "MEMSET", "COPY"], False),
         "emit_store": (["FCALL", "PCALL"], False)}
SAMEVAR = {"emit_store": ["INDEX", "LOAD"], "emit_load": ["STORE"]}


def memory(prog, rep, q):
    for name in sorted(STOPS):
        fn = prog.fn(name, V)
        if fn is None:
            raise AnalysisError("%s not found" % name)
        for kind in STOPS[name][0]:
            scan(prog, rep, fn, "VCODE_OP_" + kind, False)
        if name == "emit_load":
            escape_flag(prog, rep, q)
        for kind in SAMEVAR.get(name, []):
            scan(prog, rep, fn, "VCODE_OP_" + kind, True)


def kindtest(fn, n, kind, same, prog):
    """value of a condition for an operation of this kind; None if it depends on something else"""
    n = fn.unwrap(n)
    k = fn.kind(n)
    # only variables that may be written through a pointer are of interest
    if k == "mem" and fn.pay(n)[0] in ("addressed", "captured"):
        return True
    if k == "var":
        d = [i for x in fn.walk() if fn.kind(x) == "decl" for v, i in fn.pay(x)
             if v == fn.var_of(n) and i is not None and i >= 0]
        if len(d) == 1 and any(fn.kind(y) == "mem" and fn.pay(y)[0] == "addressed" for y in fn.walk(d[0])):
            return kindtest(fn, d[0], kind, same, prog)
    if k == "call":
        g = prog.callee(fn, n)
        if g is not None and g.file == V and g.cfg_raw and any("op_t" in fn.type(a) or "vcode_op_t" in fn.type(a) for a in fn.args(n)):
            return predicate(g, kind, same, prog)
    if k == "un" and fn.pay(n) == "!":
        v = kindtest(fn, fn.kids(n)[0], kind, same, prog)
        return None if v is None else not v
    if k == "bin" and fn.pay(n) in ("&&", "||"):
        a, b = [kindtest(fn, x, kind, same, prog) for x in fn.kids(n)]
        if fn.pay(n) == "&&":
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    if k == "bin" and fn.pay(n) in ("==", "!="):
        for x, y in (fn.kids(n), fn.kids(n)[::-1]):
            x, y = fn.unwrap(x), fn.unwrap(y)
            if fn.kind(x) == "mem" and fn.pay(x)[0] == "kind":
                e = fn.pay(y) if fn.kind(y) == "enum" else None
                if e is not None:
                    return (e == kind) == (fn.pay(n) == "==")
            if fn.kind(x) == "mem" and fn.pay(x)[0] == "address":
                return same == (fn.pay(n) == "==")
            if fn.kind(x) == "mem" and fn.pay(x)[0] == "result":
                return fn.pay(n) == "!="
            if fn.kind(x) == "idx":
                return fn.pay(n) == "!="       # other operands
    return None


def steps(fn, b, kind, same, prog):
    """successors an operation of this kind may take"""
    cfg = fn.cfg
    blk = cfg.blocks[b]
    for s, lab in cfg.edges(b):
        if lab in (True, False) and blk.cond is not None:
            v = kindtest(fn, blk.cond, kind, same, prog)
            if v is not None and v != lab:
                continue
        elif isinstance(lab, tuple) and blk.cond is not None:
            c = fn.unwrap(blk.cond)
            if fn.kind(c) == "mem" and fn.pay(c)[0] == "kind" or fn.kind(c) == "var" and fn.varkind(fn.var_of(c)) == "param":
                kv = next((v for en, vals in prog.enums.items() for v, nm in enumpairs(vals) if nm == kind), None)
                if lab[0] == "case" and kv not in lab[1] or lab[0] == "notcase" and kv in lab[1]:
                    continue
        yield s


def predicate(g, kind, same, prog):
    """what a helper that classifies operations answers"""
    out, seen, todo = set(), set(), [g.cfg.entry]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        for e in g.cfg.blocks[b].elems:
            if g.kind(e) == "ret" and g.kids(e):
                x = g.unwrap(g.kids(e)[0])
                out.add(bool(g.const(x)) if g.const(x) is not None else kindtest(g, x, kind, same, prog))
        todo.extend(steps(g, b, kind, same, prog))
    return out.pop() if len(out) == 1 else None


def scan(prog, rep, fn, kind, same):
    cfg = fn.cfg
    order = cfg.rpo()
    pos = {b: i for i, b in enumerate(order)}
    # the loop header: target of an edge from a later block
    heads = sorted({s for b in order for s, lab in cfg.edges(b) if s in pos and pos[s] <= pos[b]}, key=lambda b: pos[b])
    if not heads:
        raise AnalysisError("%s has no loop over earlier operations" % fn.name)
    passed = False
    for h in heads:
        seen, todo = set(), [s for s, lab in cfg.edges(h)]
        while todo:
            b = todo.pop()
            if b in seen or b not in pos:
                continue
            seen.add(b)
            if b == h:
                passed = True
                continue
            todo.extend(steps(fn, b, kind, same, prog))
    rep.check("memory", not passed, "%s:%s" % (fn.name, kind), "%s:%d" % (fn.file, fn.line),
              "%s looks past an earlier %s%s" % (fn.name, kind, " of the same variable" if same else ""))


def escape_flag(prog, rep, q):
    fn = prog.fn("emit_index", V)
    for st, val, n in q.run(fn, {p: P(fn.varname(p)) for p in fn.params}):
        if not any(op[0] == "op" for op in st.ops):
            continue
        c = Case(fn, st, val, n)
        ok = any(e[0] == "store" and e[1][0] == "field" and e[1][2] == "addressed" and is_n(e[2]) and e[2][1]
                 and P(fn.varname(fn.params[0])) in params_in(e[1]) for e in st.events)
        rep.check("memory", ok, "emit_index:addressed", c.loc(),
                  "emit_index takes the address of a variable without noting it")
