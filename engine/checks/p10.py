"""P10: native code that stands in for library subprograms agrees with their VHDL declarations and bodies."""
import re
import core
import vhdl
from facts import AnalysisError, REPO

WANT = ["src/jit/jit-intrin.c", "src/jit/jit-ffi.c", "src/rt/*.c", "src/lower.c", "src/vhpi/vhpi-model.c"]
EXPLAIN = """
(symbol) Every symbol named by a FOREIGN attribute of the VHDL libraries in lib/ ("INTERNAL x", "GHDL x") and every symbol
given to lower_foreign_predef is a function defined with external linkage, listed in symbols.txt, with the signature its
convention calls it with.
(slots) Internal entries and intrinsics: a forward dataflow over the argument vector knows what each slot holds from the
VHDL profile (context or state+context, scalars one slot, unconstrained arrays pointer/left/length, everything passed by
reference one pointer); every read uses the field of that kind and a slot that exists, the length of an array is decoded and
nothing else is, also through helpers the vector is handed to.
(result) On every path that returns, the slots of the result have been written with the field of their kind (scalar: slot
0, array: slots 0-2); a procedure writes nothing but NULL to slot 0.
(width) What is stored through a pointer of an out parameter, and the parameters and result of functions of the GHDL
convention, have the size of the VHDL type.
(shape) The bounds an intrinsic gives to the array it returns are well formed (`1 to n', `n-1 downto 0' or null) and have
the direction of the results of the VHDL body it replaces.
(table) The truth tables of the intrinsics, also composed of the compressed tables of the vector variants, are those of the
VHDL bodies.
(mirror) Enumerations and records the C code shares with VHDL list the same literals and fields, in order and of the same
size.
"""
ASSUME = ["an intrinsic whose name matches no declaration is never used",
          "whether the values computed by straight-line arithmetic of an intrinsic equal those of the body is not decided"]

CODES = {"I": "I", "S": "U", "R": "R", "B": "I", "C": "I", "T": "I", "N": "I", "P": "I", "J": "I", "Q": "U", "L": "I",
         "U": "I", "V": "U", "Y": "U"}
WELL = {"integer": "I", "string": "S", "real": "R", "boolean": "B", "character": "C", "time": "T", "natural": "N",
        "positive": "P", "bit": "J", "bit_vector": "Q", "std_logic": "L", "std_ulogic": "U", "std_logic_vector": "V",
        "std_ulogic_vector": "Y"}
FIELD = {"P": "pointer", "A": "pointer", "I": "integer", "D": "integer", "L": "integer", "R": "real", "N": None}
WHAT = {"P": "a pointer", "A": "the data of an array", "I": "a scalar", "D": "the left bound of an array",
        "L": "the length of an array", "R": "a real", "N": "a number"}
SIZES = {"int8_t": 1, "uint8_t": 1, "char": 1, "bool": 1, "_Bool": 1, "int16_t": 2, "uint16_t": 2, "int": 4, "int32_t": 4,
         "uint32_t": 4, "unsigned int": 4, "unsigned": 4, "int64_t": 8, "uint64_t": 8, "long": 8, "unsigned long": 8, "size_t": 8,
         "double": 8, "file_handle_t": 4}
# C enumerations mirrored: VHDL type -> (C enumeration, prefix of the constants, prefix of the literals)
ENUMS = {("env", "dir_open_status"): ("dir_open_status_t", "DIR_OPEN_STATUS_", "status_"),
         ("env", "dir_create_status"): ("dir_create_status_t", "DIR_CREATE_STATUS_", "status_"),
         ("env", "dir_delete_status"): ("dir_delete_status_t", "DIR_DELETE_STATUS_", "status_"),
         ("env", "file_delete_status"): ("file_delete_status_t", "FILE_DELETE_STATUS_", "status_"),
         ("standard", "severity_level"): ("vhdl_severity_t", "SEVERITY_", ""),
         ("standard", "file_open_state"): ("file_open_state_t", "", ""),
         ("standard", "file_origin_kind"): ("file_origin_kind_t", "", ""),
         ("standard", "file_open_status"): ("file_open_status_t", "", ""),
         ("standard", "file_open_kind"): ("file_open_kind_t", "", "")}
ULOGIC = {"'U'": "_U", "'X'": "_X", "'0'": "_0", "'1'": "_1", "'Z'": "_Z", "'W'": "_W", "'L'": "_L", "'H'": "_H", "'-'": "_DC"}
PREDEFS = {
    "_std_to_string_time": ("function", "II", "U"), "_std_to_string_real_digits": ("function", "RI", "U"),
    "_std_to_string_real_format": ("function", "RU", "U"), "_std_to_hstring_bit_vec": ("function", "U", "U"),
    "_std_to_ostring_bit_vec": ("function", "U", "U"), "__nvc_flush": ("procedure", "P", None),
    "__nvc_file_close": ("procedure", "P", None), "__nvc_rewind": ("procedure", "P", None),
    "__nvc_endfile": ("function", "P", "I"), "__nvc_file_mode": ("function", "P", "I"),
    "__nvc_file_canseek": ("function", "P", "I"), "__nvc_file_size": ("function", "P", "I"),
    "__nvc_file_state": ("function", "P", "I"), "__nvc_seek": ("procedure", "PII", None),
    "__nvc_truncate": ("procedure", "PII", None), "__nvc_file_position": ("function", "PI", "I"),
}


def layout(kind, cats):
    out = ["P"] if kind == "function" else ["N0", "P"]
    for c in cats:
        out += ["A", "D", "L"] if c == "U" else [c]
    return out


def demangle(name):
    """(kind, categories of parameters, category of the result) or None"""
    predef = name.endswith("$predef")
    s = name[:-7] if predef else name
    i = s.index("(") if "(" in s else None
    if i is None:
        return None

    def one(j):
        m = re.match(r"\d+", s[j:])
        if m:
            n = int(m.group(0))
            j += len(m.group(0))
            return s[j:j + n], j + n
        return s[j], j + 1
    j, ps = i + 1, []
    while s[j] != ")":
        t, j = one(j)
        ps.append(t)
    j += 1
    ret = one(j)[0] if j < len(s) else None
    return s[:i], ps, ret


class Slots:
    """Dataflow over the argument vector of one entry function."""

    def __init__(self, prog, rep, ctx):
        self.prog, self.rep, self.ctx, self.memo = prog, rep, ctx, {}
        self.bad, self.avs = {}, {}

    def complete(self):
        if not hasattr(self, "_comp"):
            self._comp = {frozenset(enum_map(self.prog, c[0]).values()) for c in ENUMS.values()}
        return self._comp

    @staticmethod
    def argvar(f):
        for v in f.params:
            if re.match(r"^(const )?jit_scalar_t \*(const)?$", f.vartype(v)) or re.match(r"^(const )?jit_scalar_t ?\*$", f.vartype(v)):
                return v
        return None

    def slot(self, f, n):
        """('s', k) for args[k], ('v', v) for a local of the scalar type."""
        n = f.unwrap(n)
        if f.kind(n) == "idx":
            b, i = f.kids(n)
            if f.var_of(b) == self.av(f) and f.const(i) is not None:
                return ("s", f.const(i))
            if f.var_of(b) == self.av(f):
                return ("?",)
        if f.kind(n) == "un" and f.pay(n) == "*" and f.var_of(f.kids(n)[0]) == self.av(f):
            return ("s", 0)
        v = f.var_of(n)
        if v is not None and re.match(r"^(const )?jit_scalar_t$", f.vartype(v)):
            return ("v", v)
        return None

    def av(self, f):
        k = (f.file, f.name)
        if k not in self.avs:
            self.avs[k] = self.argvar(f)
        return self.avs[k]

    def report(self, key, loc, msg):
        self.bad.setdefault(key, (loc, msg))

    def run(self, f, init, depth=0):
        """init: tuple of (slot, kind, written); returns the state at normal return, or None."""
        key = (f.file, f.name, init)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        res = []

        def join(a, b):
            if a == b:
                return a
            da, db, out = dict(a), dict(b), {}
            for k in set(da) | set(db):
                x, y = da.get(k), db.get(k)
                if x is None or y is None:
                    out[k] = ("?", False)
                else:
                    out[k] = (x[0] if x[0] == y[0] else "?", x[1] and y[1] and (x[1] if x[1] == y[1] else True))
            return tuple(sorted(out.items(), key=repr))

        def transfer(st, e, b, i):
            if not isinstance(e, int):
                return st
            d = dict(st)
            d = self.elem(f, d, e, depth)
            if d is None:
                return None
            return tuple(sorted(d.items(), key=repr))
        def edge(st, b, s, kind):
            # a switch that lists every literal of a shared enumeration has no other value to fall through with
            if isinstance(kind, tuple) and kind[0] == "notcase" and frozenset(kind[1]) in self.complete():
                return None
            return st
        ins = core.forward(f, init, transfer, edge, join)
        out = ins.get(f.cfg.exit)
        self.memo[key] = out
        return out

    def fieldread(self, f, n):
        """Is the member access n of a slot a read?  (not the target of a plain assignment, not an address taken)"""
        p = f.parent(n)
        while p is not None and p >= 0 and f.kind(p) == "paren":
            n, p = p, f.parent(p)
        if p is not None and p >= 0 and f.kind(p) == "asg" and f.kids(p)[0] == n and f.pay(p) == "=":
            return False
        return True

    def decoded(self, f, n):
        """Is the value read at n used (only) to find a length?  True / False / 'copy'."""
        p, c = f.parent(n), n
        while p is not None and p >= 0 and f.kind(p) in ("paren", "cast"):
            c, p = p, f.parent(p)
        if p is None or p < 0:
            return False
        if f.kind(p) == "call" and f.callee(p) == "ffi_array_length":
            return True
        if f.kind(p) == "bin" and f.pay(p) in (">>", "^"):
            # x ^ (x >> 63)
            q = p
            while q is not None and q >= 0 and f.kind(q) in ("bin", "paren") and (f.kind(q) == "paren" or f.pay(q) in (">>", "^")):
                if f.kind(q) == "bin" and f.pay(q) == "^":
                    a, b2 = f.kids(q)
                    return self.xor(f, a, b2) or self.xor(f, b2, a)
                q = f.parent(q)
            return False
        if f.kind(p) == "asg" and f.pay(p) == "=":
            t = f.unwrap(f.kids(p)[0])
            if f.kind(t) == "mem" and self.slot(f, f.kids(t)[0]):
                return "copy"
        if f.kind(p) in ("asg", "decl"):
            return self.later(f, p, c)
        return False

    def later(self, f, p, c):
        """The raw length kept in a local: every use decodes it."""
        v = None
        if f.kind(p) == "decl":
            for x, init in f.pay(p):
                if init == c or (init is not None and init >= 0 and f.skip_casts(init) == f.skip_casts(c)):
                    v = x
        else:
            v = f.var_of(f.kids(p)[0])
        if v is None:
            return False
        uses = [n for n in f.walk() if f.kind(n) == "var" and f.var_of(n) == v]
        uses = [n for n in uses if not (f.kind(f.parent(n)) == "asg" and f.kids(f.parent(n))[0] == n)]
        return bool(uses) and all(self.decoded_use(f, n) for n in uses)

    def decoded_use(self, f, n):
        p = f.parent(n)
        while f.kind(p) in ("paren", "cast"):
            p = f.parent(p)
        if f.kind(p) == "call" and f.callee(p) == "ffi_array_length":
            return True
        q = p
        while q is not None and q >= 0 and (f.kind(q) == "paren" or f.kind(q) == "bin" and f.pay(q) in (">>", "^")):
            if f.kind(q) == "bin" and f.pay(q) == "^":
                a, b = f.kids(q)
                return self.xor(f, a, b) or self.xor(f, b, a)
            q = f.parent(q)
        return False

    def xor(self, f, a, b):
        b = f.unwrap(b)
        return f.kind(b) == "bin" and f.pay(b) == ">>" and f.const(f.kids(b)[1]) in (31, 63) and \
            f.txt(f.unwrap(f.kids(b)[0])) == f.txt(f.unwrap(a))

    def value(self, f, d, n):
        """Kind of the value assigned to a slot field (for copies)."""
        n = f.unwrap(n)
        if f.kind(n) == "mem":
            s = self.slot(f, f.kids(n)[0])
            if s and s in d:
                return d[s][0]
        return None

    def elem(self, f, d, e, depth):
        k = f.kind(e)
        if k == "mem":
            s = self.slot(f, f.kids(e)[0])
            if s and s[0] in ("s", "v") and not f.pay(e)[2] and self.fieldread(f, e):
                self.read(f, d, s, f.pay(e)[0], e)
        elif k == "decl":
            for v, init in f.pay(e):
                if init is not None and init >= 0 and re.match(r"^(const )?jit_scalar_t$", f.vartype(v)):
                    s = self.slot(f, init)
                    d[("v", v)] = d.get(s, ("?", False)) if s else ("?", False)
        elif k == "asg" and f.pay(e) == "=":
            lhs, rhs = f.unwrap(f.kids(e)[0]), f.kids(e)[1]
            s = self.slot(f, lhs)
            if s:
                src = self.slot(f, rhs)
                if s == ("?",):
                    for q in list(d):
                        d[q] = ("?", d[q][1])
                else:
                    kd = d.get(src, ("?", False))[0] if src else "?"
                    d[s] = (kd, True)
            elif f.kind(lhs) == "mem" and not f.pay(lhs)[2]:
                s = self.slot(f, f.kids(lhs)[0])
                if s and s != ("?",):
                    fld = f.pay(lhs)[0]
                    kd = self.value(f, d, rhs)
                    if kd is None:
                        kd = {"pointer": "P", "integer": "N", "real": "R"}.get(fld, "?")
                    null = fld == "pointer" and (f.const(f.skip_casts(rhs)) == 0 or core.is_null(f, rhs))
                    d[s] = (kd, "null" if null else fld)
        elif k == "call":
            args = f.args(e)
            pass_ = [i for i, a in enumerate(args) if f.var_of(a) == self.av(f) and self.av(f) is not None]
            if self.prog.call_noreturn(f, e):
                self.rep.count("calls that do not return", 1)
                return None
            if pass_:
                g = self.prog.callee(f, e)
                if g is None or depth > 4 or self.argvar(g) is None:
                    # handed on unseen (interpreter, plug-in): nothing known afterwards
                    for q in list(d):
                        d[q] = ("?", True)
                else:
                    sub = tuple(sorted(((q, v) for q, v in d.items() if q[0] == "s"), key=repr))
                    out = self.run(g, sub, depth + 1)
                    if out is None:
                        return None
                    loc = {q: v for q, v in d.items() if q[0] == "v"}
                    d = dict((q, v) for q, v in out if q[0] == "s")
                    d.update(loc)
        return d

    def read(self, f, d, s, fld, e):
        cell = d.get(s)
        where = "%s: %s" % (f.name, f.txt(e))
        if cell is None:
            if s[0] == "s":
                self.report("%s:%s:none" % (f.name, f.txt(e)), f.loc(e), "%s reads a slot that no parameter of %s occupies" % (where, self.ctx))
            return
        kd = cell[0]
        self.rep.count("reads of argument slots", 1)
        if kd in ("?", "N0"):
            return
        want = FIELD.get(kd)
        if kd == "N":
            want = "integer"
        if fld != want:
            self.report("%s:%s:field" % (f.name, f.txt(e)), f.loc(e), "%s reads as .%s a slot that holds %s of %s" % (where, fld, WHAT[kd], self.ctx))
            return
        if fld == "integer" and kd in ("I", "L", "D"):
            dec = self.decoded(f, e)
            if dec == "copy":
                return
            if kd == "L" and not dec:
                self.report("%s:%s:raw" % (f.name, f.txt(e)), f.loc(e), "%s uses the encoded length of an array of %s without decoding it" % (where, self.ctx))
            elif kd in ("I", "D") and dec is True:
                self.report("%s:%s:dec" % (f.name, f.txt(e)), f.loc(e), "%s decodes as a length a slot that holds %s of %s" % (where, WHAT[kd], self.ctx))


def start(lay):
    return tuple(sorted(((("s", i), (k, False)) for i, k in enumerate(lay)), key=repr))


def check_result(kind, ret, out, name, loc, rep, what):
    if out is None:
        return
    d = dict(out)
    if kind == "procedure":
        c = d.get(("s", 0))
        rep.check("result", c is None or c[1] in (False, "null") or c[1] is True, "%s:state" % name, loc,
                  "%s is called as a procedure of %s but leaves a state other than NULL in slot 0" % (name, what))
        return
    need = {"I": [(0, "integer")], "R": [(0, "real")], "P": [(0, "pointer")],
            "U": [(0, "pointer"), (1, "integer"), (2, "integer")]}[ret]
    for k, fld in need:
        c = d.get(("s", k))
        w = c[1] if c else False
        ok = w in (fld, True) or (w == "null" and fld == "pointer")
        rep.check("result", ok, "%s:%d" % (name, k), loc, "%s returns with slot %d %s, the result of %s is expected there as .%s" % (
            name, k, "not written" if not w else "written as .%s" % w, what, fld))


# ---- shapes ----------------------------------------------------------------------------------------------

def linear(f, n, depth=0):
    """Linear form {var: coefficient, None: constant} of an integer expression, or None."""
    n = f.unwrap(n)
    while f.kind(n) in ("cast", "paren"):
        n = f.unwrap(f.kids(n)[0])
    if f.const(n) is not None:
        return {None: f.const(n)}
    k = f.kind(n)
    if k == "un" and f.pay(n) in ("-", "~", "+"):
        a = linear(f, f.kids(n)[0], depth)
        if a is None:
            return None
        if f.pay(n) == "+":
            return a
        a = {x: -c for x, c in a.items()}
        if f.pay(n) == "~":
            a[None] = a.get(None, 0) - 1
        return a
    if k == "bin" and f.pay(n) in ("+", "-"):
        a, b = (linear(f, x, depth) for x in f.kids(n))
        if a is None or b is None:
            return None
        s = 1 if f.pay(n) == "+" else -1
        out = dict(a)
        for x, c in b.items():
            out[x] = out.get(x, 0) + s * c
        return {x: c for x, c in out.items() if c or x is None}
    if k == "bin" and f.pay(n) == "^":
        a, b = f.kids(n)
        for x, y in ((a, b), (b, a)):
            if f.const(y) == -1:
                r = linear(f, x, depth)
                if r is not None:
                    r = {z: -c for z, c in r.items()}
                    r[None] = r.get(None, 0) - 1
                return r
    v = f.var_of(n) if k == "var" else None
    if v is not None:
        if depth < 4 and f.varkind(v) == "l":
            init = [i for d in f.walk() if f.kind(d) == "decl" for x, i in f.pay(d) if x == v and i is not None and i >= 0]
            asg = [a for a in f.walk() if f.kind(a) == "asg" and f.var_of(f.kids(a)[0]) == v or
                   f.kind(a) == "un" and f.pay(a) in ("pre++", "pre--", "post++", "post--", "&") and f.var_of(f.kids(a)[0]) == v]
            if len(init) == 1 and not asg:
                r = linear(f, init[0], depth + 1)
                if r is not None:
                    return r
            if not init and len(asg) == 1 and f.kind(asg[0]) == "asg" and f.pay(asg[0]) == "=":
                r = linear(f, f.kids(asg[0])[1], depth + 1)
                if r is not None:
                    return r
        return {v: 1}
    return {f.txt(n): 1}


def classify(left, length):
    """Direction of bounds given by left and encoded length; None: cannot tell, 'bad': malformed."""
    if left is None or length is None:
        return None
    lv = {k for k, c in left.items() if k is not None and c}
    nv = {k: c for k, c in length.items() if k is not None and c}
    if not nv:
        c = length.get(None, 0)
        if c == -1:
            return "null-downto"
        if lv:
            return None
        if c < 0:
            return "downto" if left.get(None, 0) + c == -2 else "bad"
        return "to" if left.get(None, 0) == 1 or c == 0 else "bad"
    if all(c < 0 for c in nv.values()):
        s = dict(left)
        for k, c in length.items():
            s[k] = s.get(k, 0) + c
        s = {k: c for k, c in s.items() if c}
        return "downto" if s == {None: -2} else "bad"
    if all(c > 0 for c in nv.values()):
        return "to" if left == {None: 1} or (not lv and left.get(None) == 1) else "bad"
    return None


class Shapes:
    """Sets of (site, direction) of the results of entry functions."""

    def __init__(self, prog):
        self.prog, self.memo = prog, {}

    def of(self, f, seen=()):
        if f.name in self.memo:
            return self.memo[f.name]
        if f.name in seen:
            return set()
        av = Slots.argvar(f)
        out = set()

        def transfer(st, e, b, i):
            if not isinstance(e, int):
                return st
            d = dict(st)
            if f.kind(e) == "asg" and f.pay(e) == "=":
                lhs = f.unwrap(f.kids(e)[0])
                if f.kind(lhs) == "mem":
                    x = f.unwrap(f.kids(lhs)[0])
                    if f.kind(x) == "idx" and f.var_of(f.kids(x)[0]) == av and f.const(f.kids(x)[1]) in (1, 2):
                        d[f.const(f.kids(x)[1])] = frozenset([e])
                elif f.kind(lhs) == "idx" and f.var_of(f.kids(lhs)[0]) == av:
                    c = f.const(f.kids(lhs)[1])
                    if c in (1, 2):
                        d[c] = frozenset(["?"])
            elif f.kind(e) == "call":
                if self.prog.call_noreturn(f, e):
                    return None
                if any(f.var_of(a) == av for a in f.args(e)):
                    d[1] = d[2] = frozenset([("call", e)])
            return tuple(sorted(d.items(), key=repr))

        def join(a, b):
            if a == b:
                return a
            # keep the paths apart: pairs of definitions
            da, db = dict(a), dict(b)
            return tuple(sorted(((k, frozenset(da.get(k, frozenset(["?"])) | db.get(k, frozenset(["?"])))) for k in set(da) | set(db)), key=repr))
        # definitions are paired block by block: collect at each pair of writes
        cfg = f.cfg
        pairs = []
        ins = core.forward(f, (), transfer, None, join)
        end = dict(ins.get(cfg.exit, ()))
        l1, l2 = end.get(1, frozenset()), end.get(2, frozenset())
        for x in sorted(l1, key=repr):
            if isinstance(x, tuple):
                g = self.prog.callee(f, x[1])
                if g is not None and Slots.argvar(g) is not None:
                    out |= self.of(g, seen + (f.name,))
                continue
            if x == "?":
                continue
            # the length written with it: same block if there is one, else any
            bx = cfg.where(x)
            same = [y for y in l2 if isinstance(y, int) and cfg.where(y) and bx and cfg.where(y)[0] == bx[0]]
            for y in same or [y for y in l2 if isinstance(y, int)]:
                pairs.append((x, y))
        for x, y in pairs:
            xr, yr = f.kids(x)[1], f.kids(y)[1]
            out.add((f.loc(x), classify(linear(f, xr), linear(f, yr)), f.txt(xr), f.txt(yr)))
        self.memo[f.name] = out
        return out


class Results:
    """Directions of the arrays returned by VHDL bodies."""

    def __init__(self, lib):
        self.lib, self.memo = lib, {}
        self.bodies = {}
        for s in lib.subs:
            if s.body is not None:
                self.bodies.setdefault((s.pkg, s.name), []).append(s)

    def of(self, s, seen=()):
        k = id(s)
        if k in self.memo:
            return self.memo[k]
        if k in seen:
            return set()
        out = set()
        T = s.body
        loc = {}
        for i, t in enumerate(T):
            if t in ("variable", "constant", "alias"):
                j = i + 1
                names = []
                while T[j] not in (":", "is", ";"):
                    if T[j] != ",":
                        names.append(T[j])
                    j += 1
                if T[j] == ":":
                    e = j
                    while e < len(T) and T[e] not in (":=", ";") and not (T[e] == "is"):
                        e += 1
                    seg = T[j + 1:e]
                    for n in names:
                        loc[n] = self.rng(seg)
        i = 0
        while i < len(T):
            if T[i] == "return" and (i == 0 or T[i - 1] in (";", "then", "else", "begin", "loop", "=>", "is")):
                j, dep = i + 1, 0
                while j < len(T) and T[j] != ";":
                    j += 1
                out |= self.expr(s, T[i + 1:j], loc, seen + (k,))
                i = j
            i += 1
        if not seen:
            self.memo[k] = out
        return out

    def rng(self, seg):
        if "(" not in seg:
            return "?"
        d, par = None, 0
        inner = seg[seg.index("(") + 1:]
        if "downto" in inner:
            return "downto" if inner[inner.index("downto") + 1] == "0" else "?"
        if "to" in inner:
            return "to" if inner[inner.index("to") - 1] == "1" else "?"
        return "?"

    def expr(self, s, E, loc, seen):
        while len(E) > 2 and E[0] == "(" and self.match(E, 0) == len(E) - 1:
            E = E[1:-1]
        if len(E) == 1:
            if E[0] in loc:
                return {loc[E[0]]}
            cs = [c for c in self.lib.consts.get((s.pkg, E[0]), [])]
            if cs:
                return {self.null(c[2]) for c in cs}
            return {"?"}
        if len(E) > 2 and re.match(r"^[a-z]\w*$", E[0]) and E[1] == "(" and self.match(E, 1) == len(E) - 1:
            if E[0] in ("string",):
                return {"?"}
            inner = E[2:-1]
            if any((p, E[0]) in self.lib.types for p in (s.pkg, "std_logic_1164", "numeric_std", "standard")) or E[0] in self.lib.BASE:
                return self.expr(s, inner, loc, seen)
            subs = self.bodies.get((s.pkg, E[0]))
            if len(inner) > 2 and inner[1] == "(" and any(n == inner[0] for p, n in self.lib.types):
                # the type the first argument is converted to selects the subprogram
                d = s.file.rsplit("/", 1)[0]
                subs = [b for (p, n), bs in sorted(self.bodies.items()) if n == E[0] for b in bs
                        if b.params and b.params[0][2] == inner[0] and b.file.rsplit("/", 1)[0] == d]
                out = set()
                for b in subs:
                    out |= self.of(b, seen)
                return out or {"?"}
            if subs:
                nargs = self.count(inner)
                out = set()
                for b in subs:
                    if len(b.params) >= nargs and b.kind == "function" and b.file == s.file:
                        out |= self.of(b, seen)
                return out or {"?"}
        # operators of the package
        par = 0
        for i, t in enumerate(E):
            par += (t == "(") - (t == ")")
            if par == 0 and t in ("+", "-", "*", "and", "or", "xor", "nand", "nor", "xnor", "sll", "srl") and i:
                subs = [b for b in self.bodies.get((s.pkg, '"%s"' % t), []) if b.file == s.file and self.lib.cat(b.pkg, b.ret) == "U"]
                out = set()
                for b in subs:
                    out |= self.of(b, seen)
                return out or {"?"}
        return {"?"}

    def null(self, seg):
        if "(" in seg and "downto" in seg:
            i = seg.index("downto")
            if seg[i - 1] == "0" and seg[i + 1] == "1":
                return "null-downto"
        return self.rng(seg)

    @staticmethod
    def match(E, i):
        par = 0
        for j in range(i, len(E)):
            par += (E[j] == "(") - (E[j] == ")")
            if par == 0:
                return j
        return None

    @staticmethod
    def count(E):
        par, n = 0, 1
        for t in E:
            par += (t == "(") - (t == ")")
            if t == "," and par == 0:
                n += 1
        return n


# ---- tables ----------------------------------------------------------------------------------------------

def ctable(prog, name):
    gs = [g for g in prog.globals.get(name, []) if g.get("N")]
    if not gs:
        return None
    g = gs[0]
    N = g["N"]

    def val(i):
        k, _, _, c, _, kids = N[i][0], N[i][1], N[i][2], N[i][3], None, N[i][-1]
        if k == "init":
            return [val(x) for x in kids]
        for c in (N[i][4], N[i][3]):
            if isinstance(c, int) and k != "init":
                return N[i][4] if isinstance(N[i][4], int) else None
        return None
    return val(len(N) - 1), "%s:%s" % (g["file"], g["line"])


def vtable(toks):
    """Nested lists of the literals of a VHDL aggregate."""
    i = toks.index(":=") + 1
    E = [t for t in toks[i:]]

    def rec(i):
        assert E[i] == "("
        out, i = [], i + 1
        while E[i] != ")":
            if E[i] == "(":
                x, i = rec(i)
                out.append(x)
            elif E[i] == ",":
                i += 1
            else:
                t = E[i]
                if E[i + 1] == "=>":
                    i += 2
                    continue
                out.append(t)
                i += 1
        return out, i + 1
    return rec(0)[0]


def mangle(lib, s):
    def one(t):
        if t in WELL and not ((s.pkg, t) in lib.types and s.pkg not in ("standard", "std_logic_1164")):
            return WELL[t]
        owner = s.pkg
        if (s.pkg, t) not in lib.types:
            ps = sorted({p for p, n in lib.types if n == t})
            if len(ps) != 1:
                return "?"
            owner = ps[0]
        libn = {"textio": "std", "standard": "std", "env": "std"}.get(owner, s.lib)
        q = ("%s.%s.%s" % (libn, owner, t)).upper()
        return "%d%s" % (len(q), q)
    name = s.name if s.name.startswith('"') else s.name.upper()
    return "%s.%s.%s(%s)%s" % (s.lib.upper(), s.pkg.upper(), name, "".join(one(p[2]) for p in s.params), one(s.ret) if s.ret else "")


def out_width(prog, f, slot, av):
    """Sizes of what is stored through args[slot].pointer."""
    out = []
    for n in f.walk():
        if f.kind(n) != "decl":
            continue
        for v, init in f.pay(n):
            if init is None or init < 0:
                continue
            x = f.skip_casts(init)
            if f.kind(x) == "mem" and f.pay(x)[0] == "pointer":
                y = f.unwrap(f.kids(x)[0])
                if f.kind(y) == "idx" and f.var_of(f.kids(y)[0]) == av and f.const(f.kids(y)[1]) == slot:
                    out.append((f.vartype(v), f.loc(n)))
    return out


def run(prog, rep):
    rep.rule("symbol", "foreign symbols are defined, exported and have the signature of their convention")
    rep.rule("slots", "every slot of the argument vector is read as what the VHDL profile puts there")
    rep.rule("result", "the slots of the result are written on every path that returns")
    rep.rule("width", "sizes of C parameters, results and out objects are those of the VHDL types")
    rep.rule("shape", "bounds of returned arrays are well formed and have the direction of the VHDL body")
    rep.rule("table", "truth tables equal those of the VHDL bodies")
    rep.rule("mirror", "shared enumerations and records agree literal by literal and field by field")
    lib = vhdl.Library(REPO)
    exported = set(re.findall(r"^\s*(\w+);", open(REPO + "/src/symbols.txt").read(), re.M))
    # (symbol) and (slots): foreign subprograms of the libraries
    want = []      # (symbol, convention, kind, cats, ret cat, description, Sub)
    for spec, cands, file, line in lib.foreign:
        p = spec.split()
        if len(p) < 2:
            continue
        if len(cands) == 0:
            raise AnalysisError("no subprogram for the foreign attribute %s:%d" % (file, line))
        profs = set()
        for s in cands:
            cats = []
            for nm, mode, ty, cls, con in s.params:
                c = lib.cat(s.pkg, ty)
                if c is None:
                    raise AnalysisError("%s:%d: class of type %s" % (file, line, ty))
                if mode != "in" and c in ("I", "R") or cls == "file" or con:
                    c = "P"
                cats.append(c)
            r = lib.cat(s.pkg, s.ret) if s.ret else None
            profs.add((s.kind, tuple(cats), r))
        for kind, cats, r in sorted(profs, key=repr):
            want.append((p[-1], p[0], kind, cats, r, "%s (%s:%d)" % (cands[-1].name, file, line), cands[-1]))
    nforeign = len(want)
    seenp = set()
    for f in prog.in_file("src/lower.c"):
        for c in f.calls("lower_foreign_predef"):
            a = f.args(c)
            s = f.skip_casts(a[-1])
            if f.kind(s) != "str":
                raise AnalysisError("%s: symbol given to lower_foreign_predef" % f.loc(c))
            sym = f.pay(s)
            if sym not in PREDEFS:
                rep.bad("symbol", "%s:profile" % sym, f.loc(c), "no profile known for predefined subprogram %s" % sym)
                continue
            seenp.add(sym)
            kind, cats, r = PREDEFS[sym]
            want.append((sym, "INTERNAL", kind, tuple(cats), r, "predefined subprogram (%s)" % f.loc(c), None))
    rep.count("foreign subprograms of the libraries", nforeign)
    rep.count("predefined subprograms in C", len(seenp))
    for sym, conv, kind, cats, r, what, sub in want:
        fs = [f for f in prog.fns if f.name == sym]
        rep.check("symbol", len(fs) == 1 and not fs[0].static, "%s:defined" % sym, what, "%s is named by %s but is not defined with external linkage" % (sym, what))
        if len(fs) != 1:
            continue
        f = fs[0]
        rep.check("symbol", sym in exported, "%s:export" % sym, f.loc(-1), "%s is looked up by name for %s but symbols.txt does not export it" % (sym, what))
        if conv == "INTERNAL":
            ptypes = [f.vartype(v).replace("const ", "") for v in f.params]
            ok = f.ret == "void" and len(ptypes) <= 2 and all(p.replace(" ", "") == q for p, q in zip(ptypes, ("jit_scalar_t*", "tlab_t*")))
            rep.check("symbol", ok, "%s:signature" % sym, f.loc(-1), "%s is called with (jit_scalar_t *, tlab_t *) for %s, it takes (%s)" % (sym, what, ", ".join(ptypes)))
            if not ok:
                continue
            if ptypes:
                sl = Slots(prog, rep, what)
                out = sl.run(f, start(layout(kind, cats)))
                rep.ok("slots", "%s for %s" % (sym, what))
                for key, (loc, msg) in sorted(sl.bad.items()):
                    rep.bad("slots", key, loc, msg)
                check_result(kind, r, out, sym, f.loc(-1), rep, what)
                # (width) of out parameters
                if sub is not None:
                    pos = 2 if kind == "procedure" else 1
                    for nm, mode, ty, cls, con in sub.params:
                        c = lib.cat(sub.pkg, ty)
                        w = lib.width(sub.file, ty) if c == "I" else 8 if c == "R" else None
                        if mode != "in" and w:
                            for t, loc in out_width(prog, f, pos, Slots.argvar(f)):
                                base = t.replace("const ", "").rstrip(" *")
                                if base in SIZES:
                                    rep.check("width", SIZES[base] == w, "%s:%s" % (sym, nm), loc, "%s stores %s through out parameter %s of %s, a VHDL type of %d byte(s)" % (sym, base, nm, what, w))
                        pos += 3 if c == "U" and mode == "in" or c == "U" else 1
            elif kind == "function":
                rep.bad("result", "%s:none" % sym, f.loc(-1), "%s has no access to the slots in which the result of %s is expected" % (sym, what))
        else:
            # (width) GHDL convention: C signature
            exp = []
            for (nm, mode, ty, cls, con), c in zip(sub.params, cats):
                if c == "U" and mode == "in":
                    exp += [("ptr", 8, nm), ("int", 8, nm + "'length")]
                elif c in ("U", "P"):
                    exp.append(("ref", (mode, ty, lib.cat(sub.pkg, ty)), nm))
                elif c == "R":
                    exp.append(("real", 8, nm))
                else:
                    exp.append(("int", lib.width(sub.file, ty), nm))
            rep.check("width", len(exp) == len(f.params), "%s:count" % sym, f.loc(-1), "%s takes %d arguments, %s passes %d" % (sym, len(f.params), what, len(exp)))
            for (cl, w, nm), v in zip(exp, f.params):
                t = f.vartype(v).replace("const ", "")
                if cl == "int":
                    ok = SIZES.get(t) == w and t != "double"
                elif cl == "real":
                    ok = t == "double"
                elif cl == "ptr":
                    ok = t.endswith("*") and SIZES.get(t.rstrip(" *")) == 1
                else:
                    mode, ty, c = w
                    base = t[:-1].strip() if t.endswith("*") else None
                    ok = base is not None
                    if ok and mode != "in" and c in ("I", "R"):
                        bw = 8 if c == "R" else lib.width(sub.file, ty)
                        ok = SIZES.get(base) == bw
                    elif ok and base in prog.records and base.endswith("_t") and (sub.pkg, ty) in lib.records:
                        ok = base == ty + "_t"
                rep.check("width", ok, "%s:%s" % (sym, nm), f.loc(-1), "parameter %s of %s has C type %s, %s passes %s" % (
                    f.varname(v), sym, t, what, {"int": "an integer of %s bytes" % (w,), "real": "a double", "ptr": "the data of an array"}.get(cl, "a reference")))
            if r is None:
                rep.check("width", f.ret == "void", "%s:result" % sym, f.loc(-1), "%s returns a value, %s is a procedure" % (sym, what))
            elif r == "R":
                rep.check("width", f.ret == "double", "%s:result" % sym, f.loc(-1), "%s returns %s, %s gives a real" % (sym, f.ret, what))
            else:
                w = lib.width(sub.file, sub.ret)
                rep.check("width", SIZES.get(f.ret) == w and f.ret != "double", "%s:result" % sym, f.loc(-1), "%s returns %s, the result of %s has %s bytes" % (sym, f.ret, what, w))
    # intrinsics
    g = prog.globals["intrinsic_list"][0]
    names = {}
    for s in lib.subs:
        names.setdefault(mangle(lib, s), []).append(s)
    shapes, results = Shapes(prog), Results(lib)
    dead, nmatch = [], 0
    done = set()
    for node in g["N"]:
        if node[0] != "init" or not isinstance(node[5], list) or "entry" not in node[5]:
            continue
        kids = dict(zip(node[5], node[6]))
        nm, en = g["N"][kids["name"]], g["N"][kids["entry"]]
        if nm[0] != "str":
            continue
        name, entry = nm[5], en[5] if en[0] == "fn" else None
        line = "%s:%s" % (g["file"], node[1])
        if entry is None:
            rep.bad("slots", "%s:entry" % name, line, "intrinsic %s has no entry" % name)
            continue
        dm = demangle(name)
        pre = name.endswith("$predef")
        match = names.get(name, [])
        if not match and not pre:
            # std_logic_vector is a subtype of std_ulogic_vector from 2008 on
            nm2 = [n for n in names if "(" in n and n.split("(")[0] == name.split("(")[0] and
                   "?" not in n and unresolved(n) == unresolved(name)]
            match = [s for n in sorted(nm2) for s in names[n]]
        if not pre and not match:
            dead.append(name)
            continue
        nmatch += 1
        path, ps, ret = dm
        cats = [CODES.get(p) or cat_of(lib, p) for p in ps]
        modes = match[0].params if match else []
        kind = "function" if ret else "procedure"
        for i, pm in enumerate(modes):
            if pm[1] != "in" and cats[i] in ("I", "R"):
                cats[i] = "P"
        rc = (CODES.get(ret) or cat_of(lib, ret)) if ret else None
        f = prog.fn(entry, "src/jit/jit-intrin.c") if [x for x in prog.fns if x.name == entry] else None
        if f is None:
            raise AnalysisError("entry %s of intrinsic %s" % (entry, name))
        what = name if len(name) < 60 else path
        sig = (entry, tuple(cats), rc, kind)
        if sig not in done:
            done.add(sig)
            sl = Slots(prog, rep, what)
            out = sl.run(f, start(layout(kind, cats)))
            rep.ok("slots", "%s for %s" % (entry, what))
            for key, (loc, msg) in sorted(sl.bad.items()):
                rep.bad("slots", key, loc, msg)
            check_result(kind, rc, out, entry, f.loc(-1), rep, what)
        if rc == "U":
            sh = shapes.of(f)
            rep.check("shape", bool(sh), "%s:known" % entry, f.loc(-1), "cannot see the bounds %s gives to the result of %s" % (entry, what))
            for loc, d, lt, nt in sorted(sh, key=repr):
                rep.check("shape", d != "bad", "%s:form" % entry, loc, "%s returns an array with left %s and encoded length %s, which describe neither `1 to n' nor `n-1 downto 0'" % (entry, lt, nt))
            for s in [b for m in match for b in results.bodies.get((m.pkg, m.name), []) if mangle(lib, b) == mangle(lib, m)]:
                vs = results.of(s)
                if "?" in vs and len(vs) == 1 or not vs:
                    continue
                known = {x.split("-")[-1] for x in vs if x != "?"}
                for loc, d, lt, nt in sorted(sh, key=repr):
                    if d in (None, "bad"):
                        continue
                    dd = d.split("-")[-1]
                    rep.check("shape", dd in known or "?" in vs, "%s:%s" % (entry, dd), loc,
                              "%s returns an array (left %s, length %s: %s) where the body of %s at %s:%d returns one that is %s" % (
                                  entry, lt, nt, d, what, s.file, s.line, " or ".join(sorted(known))))
    rep.count("intrinsics that replace a declared subprogram", nmatch)
    rep.count("intrinsics whose name matches nothing (never used)", len(dead))
    # (table)
    en = enum_map(prog, "std_ulogic_t")
    for lits, file, line in lib.enums[("std_logic_1164", "std_ulogic")]:
        got = [en.get(ULOGIC.get(x)) for x in lits]
        rep.check("mirror", got == list(range(9)), "std_ulogic_t:%s" % file, "%s:%d" % (file, line), "std_ulogic_t numbers %s as %s" % (" ".join(lits), got))
    num = {lit: i for i, lit in enumerate(lib.enums[("std_logic_1164", "std_ulogic")][0][0])}
    T = {}
    for n in ("and_table", "or_table", "xor_table", "cvt_to_x01"):
        c = ctable(prog, n)
        if c is None:
            raise AnalysisError("table %s" % n)
        T[n] = c[0]
        vs = lib.consts.get(("std_logic_1164", n), [])
        rep.count("VHDL tables", len(vs))
        for file, line, toks in vs:
            v = vtable(toks)
            conv = lambda x: [conv(y) for y in x] if isinstance(x, list) else num.get(x)
            v = conv(v)
            compare(rep, n, c[0], v, c[1], "%s:%d" % (file, line))
    cl, cr = ctable(prog, "compress_left"), ctable(prog, "compress_right")
    if cl and cr:
        for op in ("and", "or", "xor"):
            sm = ctable(prog, "small_%s_table" % op)
            if sm is None:
                raise AnalysisError("small_%s_table" % op)
            flat = [x for r in sm[0] for x in r]
            for l in range(9):
                for r in range(9):
                    idx = cl[0][l] | cr[0][r]
                    v = flat[idx] if idx < len(flat) else None
                    w = lookup(T["%s_table" % op], l, r)
                    rep.check("table", v == w, "small_%s_table:%d:%d" % (op, l, r), sm[1], "the vector variant of \"%s\" gives %s for operands %d and %d, %s_table gives %s" % (op, v, l, r, op, w))
        io = ctable(prog, "lane_iota")
        if io:
            rep.check("table", io[0] == list(range(16)), "lane_iota", io[1], "lane_iota is not the sequence 0..15: %s" % io[0])
    # (mirror)
    for (pkg, name), (cn, cp, vp) in sorted(ENUMS.items()):
        vs = lib.enums.get((pkg, name))
        if not vs:
            raise AnalysisError("VHDL enumeration %s.%s" % (pkg, name))
        em = enum_map(prog, cn)
        if not em:
            raise AnalysisError("C enumeration %s" % cn)
        for lits, file, line in vs:
            exp = {cp + (x[len(vp):] if vp and x.startswith(vp) else x).upper(): i for i, x in enumerate(lits)}
            for k, i in exp.items():
                rep.check("mirror", em.get(k) == i, "%s:%s" % (cn, k), "%s:%d" % (file, line), "literal %d of VHDL type %s is %s, %s is %s in %s" % (i, name, lits[i], k, em.get(k), cn))
    for (pkg, name), (fields, file) in sorted(lib.records.items()):
        cn = name + "_t"
        if pkg not in ("env",) or cn not in prog.records:
            continue
        cf = prog.records[cn]["fields"]
        rep.check("mirror", len(cf) == len(fields), "%s:fields" % cn, file, "VHDL record %s has %d elements, %s has %d fields" % (name, len(fields), cn, len(cf)))
        for (vn, vt), (fn, ft, off, _, w) in zip(fields, cf):
            c = lib.cat(pkg, vt)
            vw = 8 if c in ("P", "R", "U") else lib.width(file, vt)
            rep.check("mirror", vn == fn and w // 8 == vw, "%s:%s" % (cn, vn), file, "element %s of VHDL record %s (%s bytes) is field %s of %s (%d bytes)" % (vn, name, vw, fn, cn, w // 8))
    rep.require("symbol", 130)
    rep.require("slots", 75)
    rep.require("result", 70)
    rep.require("width", 60)
    rep.require("shape", 60)
    rep.require("table", 500)
    rep.require("mirror", 50)


def unresolved(n):
    dm = demangle(n)
    y = {"V": "Y", "L": "U"}
    return dm and (dm[0], tuple(y.get(p, p) for p in dm[1]), y.get(dm[2], dm[2]))


def cat_of(lib, q):
    pkg, t = q.lower().split(".")[-2:]
    c = lib.cat(pkg, t)
    if c is None:
        raise AnalysisError("class of type %s" % q)
    return c


def enum_map(prog, name):
    return {x[0]: x[1] for x in prog.enums.get(name) or []}


def lookup(t, l, r):
    return t[l][r]


def compare(rep, n, c, v, cl, vl):
    for i, x in enumerate(v):
        if isinstance(x, list):
            for j, y in enumerate(x):
                rep.check("table", c[i][j] == y, "%s:%d:%d" % (n, i, j), cl, "%s[%d][%d] is %s, the table at %s has %s" % (n, i, j, c[i][j], vl, y))
        else:
            rep.check("table", c[i] == x, "%s:%d" % (n, i), cl, "%s[%d] is %s, the table at %s has %s" % (n, i, c[i], vl, x))
