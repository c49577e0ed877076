"""P20: plug-in calls follow the error protocol and convert objects by their class."""
import os
import re
import core
import silent
from facts import AnalysisError, REPO

WANT = ["src/vhpi/*.c", "src/vpi/*.c"]
EXPLAIN = """
(clear) Every interface function offered to plug-ins (vhpi_user.h, vpi_user.h) resets the recorded error before it can report
one and before every return, so that vhpi_check_error / vpi_chk_error describe the last call.
(reported) A function that takes an object from a plug-in and refuses it - a handle that does not resolve, an object of
the wrong class, a relationship or property the object does not have - has recorded an error on every path that returns
NULL or a failing status (a `refused implies reported' fixpoint over the functions of the interface).
(kinds) For every class of object the function that creates it fixes the structure; every conversion from the generic
object to a structure is followed for every class: where it gives a pointer, that structure must be the one created for
the class or a leading part of it (sound), and every class that contains the structure must be accepted (complete).
(size) An object is allocated with at least the size of the structure it is used as.
(lazy) Lists filled on demand are read only through the function that fills them.
(stale) The lookup of a handle gives a slot only after its index was found in range, the slot in use and its generation
equal to the handle's; whoever empties a slot advances its generation and detaches the object on every path.
(counted) Every handle given out again is counted; a slot is emptied only where its count is known to have reached zero.
(refused) After the lookup of a handle from a plug-in failed nothing but the refusal follows: no other call is made.
(position) An element number from a plug-in indexes a list only after a strict comparison with the list's length.
(handle) Handles from plug-ins are turned into objects only through the checked lookup.
"""
ASSUME = ["a class is created with one structure; structures share their leading part by C layout rules",
          "whether the information returned is right for the design is not decided"]
FILES = ("src/vhpi/", "src/vpi/")
# interface functions that do not concern the recorded error
NOCLEAR = {"vhpi_check_error": "reads it", "vpi_chk_error": "reads it", "vhpi_is_printable": "pure function of a character"}
NOCLEAR.update({f: "utility on a value, never refuses" for f in
                ("vhpi_sens_clr", "vhpi_sens_first", "vhpi_sens_isset", "vhpi_sens_set", "vhpi_sens_zero")})
REPORTERS = {"vhpi_error", "vpi_error"}
CLEAR = {"vhpi_clear_error", "vpi_clear_error"}
# NULL is an answer, not a refusal, at so many places
ANSWER = {
    "vhpi_scan": ("no more elements", 1), "vpi_scan": ("no more elements", 1),
    "vpi_handle": ("no system task call is active, or nothing is related", 2), "vpi_put_value": ("no event is scheduled", 1),
    "vhpi_handle": ("access to an incomplete type has no value type", 1),
    "vpi_bind_foreign": ("caller reports", 1), "vhpi_bind_foreign": ("caller reports", 1),
    "vhpi_get_next_time": ("no further event", 1),
    "decode_handle": ("from_handle reports", 3),
    "build_typeDecl": ("types that have no class", 1),
    "vhpi_get_layout": ("objects that have no type", 1),
    "vhpi_get_value_ptr": ("no value is attached to objects outside a region", 1),
    "vhpi_get_scope_prefixedName": ("a prefix is a name or an object", 1),
}


class Refuses(silent.Silent):
    def weak(self, f, e):
        return False

    @staticmethod
    def kind(f):
        if f.name.startswith("is_"):
            return None
        if f.ret.endswith("*") or f.ret in ("vhpiHandleT", "vpiHandle"):
            return "ptr"
        if not f.static and f.name.startswith(("vhpi_", "vpi_")) and f.name not in NOCLEAR and f.ret in ("int", "vhpiIntT", "PLI_INT32"):
            return "int"
        return None

    def failing(self, f, x):
        c = f.const(x)
        return c == -1 or f.ret == "int" and c not in (None, 0) or f.name == "vpi_release_handle" and c == 0

    def status(self, f):
        """failing results returned before anything was recorded"""
        def transfer(st, e, b, i):
            st = self.elem(f, e, st)
            if not isinstance(e, (list, tuple)) and f.kind(e) == "call" and self.prog.call_noreturn(f, e):
                return None
            return st
        ins = core.forward(f, (False, frozenset(), frozenset()), transfer,
                           lambda st, b, s, kind: self.edge(f, st, b, kind), self.meet)
        out = []
        for b, st in ins.items():
            for i, e in enumerate(f.cfg.blocks[b].elems):
                if st is None:
                    break
                if not isinstance(e, (list, tuple)) and f.kind(e) == "ret" and f.kids(e):
                    x = f.unwrap(f.kids(e)[0])
                    ys = f.kids(x)[1:] if f.kind(x) == "cond" else [x]
                    if not st[0] and any(self.failing(f, f.unwrap(y)) for y in ys):
                        out.append(e)
                st = transfer(st, e, b, i)
        return out

    def run(self, f):
        if self.kind(f) == "int":
            return self.status(f)
        out = []
        for e in super().run(f):
            x = f.unwrap(f.kids(e)[0])
            g = self.prog.callee(f, x) if f.kind(x) == "call" else None
            if core.is_null(f, x) or g is not None and (g in self.bad and g.name not in ANSWER or g.name.startswith("is_")):
                out.append(e)
            elif f.kind(x) == "var" and self.converted(f, x):
                out.append(e)
        return out

    def converted(self, f, x):
        """the result of a conversion that does not report, handed on"""
        v = f.var_of(x)
        for n in f.walk():
            if f.kind(n) == "decl":
                for w, i in f.pay(n):
                    if w == v and i >= 0:
                        i = f.unwrap(i)
                        g = self.prog.callee(f, i) if f.kind(i) == "call" else None
                        if g is not None and g.name.startswith("is_"):
                            return True
        return False


RECS = {}       # records of the side under study: both sides use the same names
TAGS = (["kind", "c_vhpiObject"], ["type", "c_vpiObject"])


def is_tag(f, x):
    return f.kind(x) == "mem" and any(f.pay(x)[0] == a and b in f.pay(x)[1] for a, b in TAGS)


def record(prog, ty):
    """record behind a type name"""
    ty = ty.replace("const ", "").replace("struct ", "").rstrip(" *")
    t = prog.typedefs.get(ty)
    for _ in range(4):
        if ty in RECS:
            return ty
        if t is None:
            return None
        ty = t["canon"].replace("struct ", "")
        t = prog.typedefs.get(ty)
    return ty if ty in RECS else None


def chain(prog, rec):
    """the record and the records at its start"""
    out = []
    while rec is not None and rec not in out:
        out.append(rec)
        fl = RECS[rec]["fields"]
        rec = record(prog, fl[0][1]) if fl and not fl[0][1].endswith("*") and fl[0][2] == 0 else None
    return out


def run(prog, rep):
    rep.rule("clear", "exported functions reset the recorded error before anything else can be seen")
    rep.rule("reported", "a refused object or request has recorded an error")
    rep.rule("kinds", "an object is converted to the structure created for its class or a leading part of it")
    rep.rule("complete", "every class that contains a structure is accepted where that structure is asked for")
    rep.rule("size", "objects are allocated with at least the size of the structure they are used as")
    rep.rule("lazy", "lists filled on demand are read only through the function that fills them")
    rep.rule("handle", "handles become objects only through the checked lookup")
    fns = [f for f in prog.fns if f.file.startswith(FILES) and f.cfg_raw is not None and f.file.endswith(".c")]
    clear(prog, rep, fns)
    s = Refuses(prog, fns, lambda *a: False, reporters=REPORTERS)
    s.always_reports(fns)
    s.solve(keep={f for f in fns if f.name in ANSWER})
    for f in sorted(fns, key=lambda f: (f.file, f.line)):
        if s.kind(f) is None or not any(core.is_null(f, r) or s.kind(f) == "int" for r in returns(f)) \
                and not f.name.startswith("cast_"):
            continue
        o = s.bad.get(f, [])
        if f.name in ANSWER:
            if len(o) <= ANSWER[f.name][1]:
                rep.ok("reported", "%s:%d" % (f.file, f.line))
                continue
        if not o:
            rep.ok("reported", "%s:%d" % (f.file, f.line))
        for e in o:
            rep.bad("reported", f.name, f.loc(e), "%s: `%s' refuses without recording an error" % (f.name, f.txt(e)))
    for side in FILES:
        kinds(prog, rep, [f for f in fns if f.file.startswith(side)], side)
    lazy(prog, rep, fns)
    rep.rule("counted", "a slot is given up only when its last reference goes, and every handle given out is counted")
    rep.rule("refused", "nothing is done for a caller whose handle did not resolve")
    rep.rule("position", "an element number from the plug-in is compared with the length of the list")
    rep.rule("stale", "a handle that was released is never turned into an object again")
    stale(prog, rep, fns)
    counted(prog, rep, fns)
    refused(prog, rep, fns)
    position(prog, rep, fns)
    handles(prog, rep, fns)
    for r, n in (("clear", 30), ("reported", 30), ("kinds", 110), ("complete", 100), ("size", 45), ("stale", 8), ("counted", 2), ("refused", 10), ("position", 1), ("lazy", 10), ("handle", 20)):
        rep.require(r, n)


def returns(f):
    for n in f.walk():
        if f.kind(n) == "ret" and f.kids(n):
            yield f.unwrap(f.kids(n)[0])


# ---------------------------------------------------------------- clear
def clear(prog, rep, fns):
    names = set()
    for h in ("vhpi_user.h", "vpi_user.h"):
        with open(next(p for d in ("src/vhpi", "src/vpi", "thirdparty", "src") for p in [os.path.join(REPO, d, h)]
                       if os.path.exists(p))) as fh:
            names |= set(re.findall(r"\b(v[h]?pi_\w+)\s*\(", fh.read()))
    exported = [f for f in fns if f.name in names and not f.static]
    if len(exported) < 30:
        raise AnalysisError("only %d exported interface functions found" % len(exported))
    reach = set()
    grow = True
    while grow:
        grow = False
        for f in fns:
            if f not in reach and any(f.callee(c) in REPORTERS or prog.callee(f, c) in reach for c in f.calls()):
                reach.add(f)
                grow = True
    for f in sorted(exported, key=lambda f: f.name):
        if f.name in NOCLEAR:
            continue
        bad = []

        def transfer(st, e, b, i):
            if isinstance(e, (list, tuple)):
                return st
            k = f.kind(e)
            if k == "call":
                if f.callee(e) in CLEAR:
                    return True
                g = prog.callee(f, e)
                if g is not None and not st and all_clear(prog, g):
                    return True
                if not st and (f.callee(e) in REPORTERS or g in reach):
                    bad.append(e)
                if prog.call_noreturn(f, e):
                    return None
            elif k == "ret" and not st:
                bad.append(e)
            return st
        ins = core.forward(f, False, transfer, None, lambda a, b: a and b)
        end = ins.get(f.cfg.exit)
        bad.clear()
        for b in ins:
            st = ins[b]
            for i, e in enumerate(f.cfg.blocks[b].elems):
                if st is None:
                    break
                st = transfer(st, e, b, i)
        if end is False and f.ret == "void" and not bad:
            bad.append(None)
        rep.check("clear", not bad, f.name, f.loc(bad[0]) if bad and bad[0] is not None else "%s:%d" % (f.file, f.line),
                  "%s does not reset the recorded error first: a later error query describes an earlier call" % f.name)


def all_clear(prog, g):
    """a wrapper whose first action is to clear"""
    for b in g.cfg.rpo() if g.cfg_raw is not None else ():
        for e in g.cfg.blocks[b].elems:
            if not isinstance(e, (list, tuple)) and g.kind(e) == "call":
                return g.callee(e) in CLEAR
    return False


# ---------------------------------------------------------------- classes and structures
def kinds(prog, rep, fns, side):
    made = {}
    RECS.clear()
    for tu in prog.tus:
        if side in tu:
            RECS.update(prog.tu_records[tu])
    for f in fns:
        for c in f.calls():
            if f.callee(c) not in ("new_object", "recyle_object"):
                continue
            a = f.args(c)
            kv = f.const(f.unwrap(a[1]))
            if kv is None:
                continue
            ty = target_type(f, c)
            rec = record(prog, ty) if ty else None
            if rec is None:
                raise AnalysisError("%s: type of the object created in %s not found" % (f.loc(c), f.name))
            made.setdefault(kv, {}).setdefault(rec, (f, c))
            size = f.const(f.unwrap(a[0]))
            need = RECS[rec]["size"]
            rep.check("size", size is not None and size >= need, "%s:%s" % (f.name, rec), f.loc(c),
                      "%s allocates %s bytes for a %s of %d" % (f.name, size, rec, need))
    if not made:
        raise AnalysisError("no objects created under %s" % side)
    label = {}
    for f in fns:
        for c in f.calls():
            if f.callee(c) in ("new_object", "recyle_object"):
                label.setdefault(f.const(f.unwrap(f.args(c)[1])), classname(f, f.args(c)[1]))
    for k, recs in sorted(made.items()):
        # several structures of one class are only usable through what they share
        if len({RECS[r]["size"] for r in recs}) > 1:
            f, c = next(iter(recs.values()))
            rep.bad("kinds", "%s:structures" % label[k], f.loc(c), "class %s is created with different structures %s" %
                    (label[k], ", ".join(sorted(recs))))
    for f in sorted(fns, key=lambda f: f.line):
        if not f.name.startswith(("is_", "cast_")) or len(f.params) != 1 or "Object" not in f.vartype(f.params[0]):
            continue
        want = record(prog, f.ret)
        if want is None:
            continue
        for k, recs in sorted(made.items()):
            got = outcomes(prog, f, k)
            for rec in sorted(recs):
                ch = chain(prog, rec)
                inside = want in ch or any(want == record(prog, fl[1]) for r in ch for fl in RECS[r]["fields"]
                                           if not fl[1].endswith("*"))
                for o in got:
                    if o is not None:
                        rep.check("kinds", o in ch or o == "?" and inside, "%s:%s" % (f.name, label[k]), "%s:%d" % (f.file, f.line),
                                  "%s takes an object of class %s, created as %s, for a %s" % (f.name, label[k], rec, o))
                if want in ch or inside and f.name.startswith("is_"):
                    rep.check("complete", None not in got, "%s:%s" % (f.name, label[k]), "%s:%d" % (f.file, f.line),
                              "%s does not accept class %s, whose %s contains a %s" % (f.name, label[k], rec, want))


def classname(f, n):
    n = f.unwrap(n)
    return f.pay(n) if f.kind(n) == "enum" else str(f.const(n))


def target_type(f, c):
    """type of the pointer a call's result is stored in"""
    up = f.parent(c)
    while up is not None and f.kind(up) in ("cast", "paren", "cond", "asg"):
        if f.kind(up) == "asg":
            return f.type(f.kids(up)[0])
        up = f.parent(up)
    if up is not None and f.kind(up) == "decl":
        for v, i in f.pay(up):
            if i >= 0 and c in set(f.walk(i)):
                return f.vartype(v)
    return None


def kind_cond(prog, f, n, k, env=None):
    n = f.unwrap(n)
    kd = f.kind(n)
    if kd == "un" and f.pay(n) == "!":
        v = kind_cond(prog, f, f.kids(n)[0], k)
        return None if v is None else not v
    if kd == "bin" and f.pay(n) in ("&&", "||"):
        a, b = [kind_cond(prog, f, x, k) for x in f.kids(n)]
        if f.pay(n) == "&&":
            return False if False in (a, b) else True if a and b else None
        return True if True in (a, b) else False if a is False and b is False else None
    if kd == "bin" and f.pay(n) in ("==", "!="):
        for x, y in (f.kids(n), f.kids(n)[::-1]):
            x, y = f.unwrap(x), f.unwrap(y)
            eq = None
            if is_tag(f, x) and f.const(y) is not None:
                eq = f.const(y) == k
            elif core.is_null(f, y):
                r = pointer(prog, f, x, k)
                eq = None if len(r) != 1 else None in r
            if eq is not None:
                return eq == (f.pay(n) == "==")
    r = pointer(prog, f, n, k)
    return None if len(r) != 1 else None not in r


DEPTH = [0]


def pointer(prog, f, n, k):
    """outcomes of a pointer expression for an object of class k: records, None, '?'"""
    n = f.unwrap(n)
    kd = f.kind(n)
    if core.is_null(f, n):
        return {None}
    if kd == "call":
        g = prog.callee(f, n)
        if g is not None and g.cfg_raw is not None and g.name.startswith(("is_", "cast_")) and DEPTH[0] < 6 and \
                f.args(n) and "Object" in f.type(f.args(n)[0]):
            return outcomes(prog, g, k)
        return {"?", None}
    if kd == "var":
        v = f.var_of(n)
        vals = [i for x in f.walk() if f.kind(x) == "decl" for w, i in f.pay(x) if w == v and i >= 0]
        vals += [f.kids(x)[1] for x in f.walk() if f.kind(x) == "asg" and f.var_of(f.kids(x)[0]) == v]
        if len(vals) == 1 and v not in f.params:
            return pointer(prog, f, vals[0], k)
        return {"?", None}
    if kd == "cond":
        q, a, b = f.kids(n)
        v = kind_cond(prog, f, q, k)
        return (pointer(prog, f, a, k) if v is not False else set()) | (pointer(prog, f, b, k) if v is not True else set())
    # container_of, or a member of the result of one
    casts = [x for x in f.walk(n) if f.kind(x) == "cast" and record(prog, f.type(x)) and f.type(x).endswith("*")
             and "Object" not in f.type(x) and "void" not in f.type(x)]
    recs = {record(prog, f.type(x)) for x in casts}
    return recs if len(recs) == 1 else {"?"}


def outcomes(prog, f, k):
    out, seen, todo = set(), set(), [f.cfg.entry]
    DEPTH[0] += 1
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        blk = f.cfg.blocks[b]
        for e in blk.elems:
            if not isinstance(e, (list, tuple)) and f.kind(e) == "ret" and f.kids(e):
                out |= pointer(prog, f, f.kids(e)[0], k)
        for s, lab in f.cfg.edges(b):
            if blk.cond is not None and lab in (True, False):
                v = kind_cond(prog, f, blk.cond, k)
                if v is not None and v != lab:
                    continue
            elif isinstance(lab, tuple) and blk.cond is not None:
                c = f.unwrap(blk.cond)
                if is_tag(f, c):
                    if lab[0] == "case" and k not in lab[1] or lab[0] == "notcase" and k in lab[1]:
                        continue
            todo.append(s)
    DEPTH[0] -= 1
    return out


# ---------------------------------------------------------------- lazy lists and handles
def lazy(prog, rep, fns):
    fillers = set()
    for f in fns:
        for n in f.walk():
            if f.kind(n) == "asg" and f.kind(f.unwrap(f.kids(n)[0])) == "mem" and f.pay(f.unwrap(f.kids(n)[0]))[0] == "fn" \
                    and "Lazy" in f.pay(f.unwrap(f.kids(n)[0]))[1]:
                r = f.unwrap(f.kids(n)[1])
                if f.kind(r) == "fn":
                    fillers.add(f.pay(r)[0] if isinstance(f.pay(r), list) else f.pay(r))
    if len(fillers) < 3:
        raise AnalysisError("only %d functions fill lists on demand" % len(fillers))
    for f in fns:
        for n in f.walk():
            if f.kind(n) != "mem" or f.pay(n)[0] != "list" or "Lazy" not in f.pay(n)[1]:
                continue
            up = f.parent(n)
            while up is not None and f.kind(up) in ("paren", "cast"):
                up = f.parent(up)
            adding = False
            if up is not None and f.kind(up) == "un" and f.pay(up) == "&":
                call = f.parent(up)
                while call is not None and f.kind(call) in ("paren", "cast"):
                    call = f.parent(call)
                adding = call is not None and f.kind(call) == "call" and \
                    str(f.callee(call)).endswith(("list_add", "list_reserve"))
            ok = adding or f.name in fillers or reads_after_fill(f, n)
            rep.check("lazy", ok, "%s:%s" % (f.name, f.txt(n)), f.loc(n),
                      "%s reads %s without having it filled" % (f.name, f.txt(n)))


def reads_after_fill(f, n):
    """inside the function that calls the filler of this very list"""
    base = f.txt(f.kids(n)[0])
    return any(f.kind(x) == "asg" and f.txt(f.kids(x)[0]) in (base + "->fn", base + ".fn") for x in f.walk())


def handles(prog, rep, fns):
    H = ("vhpiHandleT", "vpiHandle")
    for f in fns:
        for n in f.walk():
            if f.kind(n) == "cast" and f.kids(n):
                x = f.unwrap(f.kids(n)[0])
                if f.type(x) in H and f.type(n) not in H and not f.type(n).startswith("const void") and \
                        f.type(n) not in ("void *", "bool", "_Bool"):
                    ok = f.name == "decode_handle"
                    rep.check("handle", ok, "%s:%s" % (f.name, f.type(n)), f.loc(n),
                              "%s turns a plug-in's handle into %s directly" % (f.name, f.type(n)))
        for c in f.calls():
            if f.callee(c) == "from_handle":
                # the result must be kept and tested (P37 follows the use)
                up = f.parent(c)
                while up is not None and f.kind(up) in ("paren", "cast"):
                    up = f.parent(up)
                rep.check("handle", up is not None and f.kind(up) in ("decl", "asg", "bin", "cond", "call", "un", "ret", "if"),
                          "%s:dropped" % f.name, f.loc(c), "%s ignores whether a handle is valid" % f.name)


# ---------------------------------------------------------------- released handles
def slot_mem(f, n, field):
    n = f.unwrap(n)
    return f.kind(n) == "mem" and f.pay(n)[0] == field and "handle_slot_t" in f.pay(n)[1]


def slot_fact(f, n, val):
    """what the outcome of an atom says about a handle"""
    n = f.unwrap(n)
    if f.kind(n) == "bin" and f.pay(n) in ("==", "!=", "<", ">", "<=", ">="):
        a, b = [f.unwrap(x) for x in f.kids(n)]
        op = f.pay(n)
        if op in ("==", "!="):
            eq = (op == "==") == val
            if slot_mem(f, a, "generation") or slot_mem(f, b, "generation"):
                return "generation" if eq else None
            if slot_mem(f, a, "obj") and core.is_null(f, b) or slot_mem(f, b, "obj") and core.is_null(f, a):
                return "used" if not eq else None
            return None
        field = lambda x: f.kind(x) == "mem" and f.pay(x)[0] == "num_handles"
        if field(b) and (op == "<" and val or op == ">=" and not val) or \
                field(a) and (op == ">" and val or op == "<=" and not val):
            return "index"
    elif slot_mem(f, n, "obj") and val:
        return "used"
    return None


def stale(prog, rep, fns):
    lookups = [f for f in fns if f.ret.startswith("handle_slot_t *") or f.ret.startswith("struct handle_slot")]
    for f in lookups:
        def edge(st, b, s, kind):
            cond = f.cfg.blocks[b].cond
            if kind in (True, False) and cond is not None:
                for n, val in core.atoms(f, cond, kind):
                    st = st | ({slot_fact(f, n, val)} - {None})
            return st

        def transfer(st, e, b, i):
            return st
        ins = core.forward(f, frozenset(), transfer, edge, lambda a, b: a & b)
        for b, st in ins.items():
            for e in f.cfg.blocks[b].elems:
                if isinstance(e, (list, tuple)) or f.kind(e) != "ret" or not f.kids(e) or core.is_null(f, f.unwrap(f.kids(e)[0])):
                    continue
                for need, what in (("index", "the index is in range"), ("used", "the slot is in use"),
                                   ("generation", "the generation matches")):
                    rep.check("stale", need in st, "%s:%s" % (f.name, need), f.loc(e),
                              "%s gives a slot without knowing that %s" % (f.name, what))
    for f in fns:
        empties = []
        for n in f.walk():
            if f.kind(n) == "asg" and f.pay(n) == "=" and slot_mem(f, f.kids(n)[0], "obj") and core.is_null(f, f.unwrap(f.kids(n)[1])):
                empties.append(n)
        if not empties:
            continue

        def transfer(st, e, b, i):
            if isinstance(e, (list, tuple)):
                return st
            emptied, gen, hnd = st
            k = f.kind(e)
            if k == "call" and prog.call_noreturn(f, e):
                return None
            if e in empties:
                emptied = True
            if k == "un" and f.pay(e) in ("pre++", "post++") and slot_mem(f, f.kids(e)[0], "generation"):
                gen = True
            if k == "asg":
                lhs = f.unwrap(f.kids(e)[0])
                if slot_mem(f, lhs, "generation"):
                    gen = True
                    c = f.const(f.kids(e)[1])
                    if f.pay(e) == "=" and c is not None:
                        hnd = True      # a slot that was never used
                elif f.kind(lhs) == "mem" and f.pay(lhs)[0] == "handle" and core.is_null(f, f.unwrap(f.kids(e)[1])):
                    hnd = True
            return (emptied, gen, hnd)
        ins = core.forward(f, (False, False, False), transfer, None,
                           lambda a, b: (a[0] or b[0],) + tuple(
                               (a[i] or not a[0]) and (b[i] or not b[0]) and (a[i] or b[i]) for i in (1, 2)))
        end = ins.get(f.cfg.exit)
        rep.check("stale", end is None or not end[0] or end[1], "%s:advance" % f.name, f.loc(empties[0]),
                  "%s empties a slot but keeps its generation: a handle to the old object resolves to the next one" % f.name)
        rep.check("stale", end is None or not end[0] or end[2], "%s:detach" % f.name, f.loc(empties[0]),
                  "%s empties a slot but leaves its handle in the object" % f.name)


def counted(prog, rep, fns):
    for f in fns:
        if not any(f.kind(n) == "mem" and f.pay(n)[0] == "refcount" for n in f.walk()):
            continue
        init = any(f.kind(n) == "asg" and f.pay(n) == "=" and slot_mem(f, f.kids(n)[0], "generation") for n in f.walk())

        def refs(n):
            return slot_mem(f, n, "refcount")

        def transfer(st, e, b, i):
            if isinstance(e, (list, tuple)):
                return st
            k = f.kind(e)
            if k == "call" and prog.call_noreturn(f, e):
                return None
            if k == "un" and f.pay(e) in ("pre++", "post++") and refs(f.kids(e)[0]):
                st = (st - {"zero"}) | {"more"}
            elif k == "un" and f.pay(e) in ("pre--", "post--") and refs(f.kids(e)[0]):
                st = st - {"zero", "more"}
            elif k == "asg" and refs(f.kids(e)[0]):
                st = (st - {"zero"}) | ({"more"} if f.pay(e) in ("=", "+=") and f.const(f.kids(e)[1]) not in (0, None) else set())
            return st

        def edge(st, b, s, kind):
            c = f.cfg.blocks[b].cond
            if kind not in (True, False) or c is None or c < 0:
                return st
            for n, v in core.atoms(f, c, kind):
                n = f.unwrap(n)
                x, op, k = n, "!=", 0
                if f.kind(n) == "bin" and f.pay(n) in NEG:
                    l, r = f.kids(n)
                    op = f.pay(n)
                    if f.const(r) is not None:
                        x, k = l, f.const(r)
                    elif f.const(l) is not None:
                        x, k, op = r, f.const(l), SWAP[op]
                    else:
                        continue
                x = f.skip_casts(f.unwrap(x))
                adj = 0
                if f.kind(x) == "un" and f.pay(x) in ("pre--", "post--"):
                    adj = 1 if f.pay(x) == "post--" else 0
                    x = f.kids(x)[0]
                if not refs(x):
                    continue
                if not v:
                    op = NEG[op]
                k -= adj
                if op == "==" and k == 0 or op == "<" and k <= 1 or op == "<=" and k <= 0:
                    st = st | {"zero"}
            return st
        empties = {n for n in f.walk() if f.kind(n) == "asg" and f.pay(n) == "=" and slot_mem(f, f.kids(n)[0], "obj")
                   and core.is_null(f, f.unwrap(f.kids(n)[1]))}
        gives = {n for n in f.walk() if f.kind(n) == "ret" and f.kids(n)
                 and f.kind(f.skip_casts(f.unwrap(f.kids(n)[0]))) == "mem"
                 and f.pay(f.skip_casts(f.unwrap(f.kids(n)[0])))[0] == "handle"}
        ins = core.forward(f, frozenset(), transfer, edge, lambda a, b: a & b)
        for b, st in ins.items():
            for i, e in enumerate(f.cfg.blocks[b].elems):
                if st is None:
                    break
                if e in empties and not init:
                    rep.check("counted", "zero" in st, "%s:last" % f.name, f.loc(e),
                              "%s gives up a slot that may still have references" % f.name)
                if e in gives:
                    rep.check("counted", "more" in st, "%s:given" % f.name, f.loc(e),
                              "%s gives out a handle again without counting it" % f.name)
                st = transfer(st, e, b, i)


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}
QUIET = re.compile(r"(vhpi|vpi)_(error|clear_error|.*_str|trace)|.*_pp$|handle_pp|__.*")


def refused(prog, rep, fns):
    """after the lookup of a handle failed only the refusal follows"""
    for f in fns:
        if not any(f.callee(c) == "from_handle" for c in f.calls()):
            continue

        def looked_up(e):
            e = f.skip_casts(f.unwrap(e))
            if f.kind(e) != "call" or f.callee(e) != "from_handle":
                return False
            # a handle the plug-in passed; those the interface keeps itself may be gone
            return any(f.kind(n) == "var" and f.varkind(f.pay(n))[0] == "p" for n in f.walk(f.args(e)[0]))
        bad = {}

        def transfer(st, e, b, i):
            if isinstance(e, (list, tuple)):
                return st
            k = f.kind(e)
            if k == "call" and prog.call_noreturn(f, e):
                return None
            if k == "call" and not QUIET.match(f.callee(e) or ""):
                if any(s == "null" for v, s in st):
                    bad.setdefault(e, "goes on")
                for a in f.args(e):
                    v = f.var_of(a)
                    if (v, "raw") in st:
                        bad.setdefault(e, "goes on without looking at the result")
            if k == "asg" and f.pay(e) == "=":
                v = f.var_of(f.kids(e)[0])
                if v is not None:
                    st = frozenset(x for x in st if x[0] != v)
                    if looked_up(f.kids(e)[1]):
                        st = st | {(v, "raw")}
            elif k == "decl":
                for v, i in f.pay(e):
                    st = frozenset(x for x in st if x[0] != v)
                    if i >= 0 and looked_up(i):
                        st = st | {(v, "raw")}
            return st

        def edge(st, b, s, kind):
            c = f.cfg.blocks[b].cond
            if kind not in (True, False) or c is None or c < 0:
                return st
            for n, v in core.atoms(f, c, kind):
                n = f.unwrap(n)
                if f.kind(n) == "asg":
                    n = f.unwrap(f.kids(n)[0])
                x = f.var_of(n)
                if x is not None and any(y[0] == x for y in st):
                    st = frozenset(y for y in st if y[0] != x)
                    if not v:
                        st = st | {(x, "null")}
            return st
        core.forward(f, frozenset(), transfer, edge, lambda a, b: a | b)
        for e, how in sorted(bad.items()):
            rep.bad("refused", f.name, f.loc(e), "%s %s after a handle did not resolve: '%s'" % (f.name, how, f.txt(e)))
        if not bad:
            rep.ok("refused", "%s:%d" % (f.file, f.line))


def position(prog, rep, fns):
    for f in fns:
        for n in f.walk():
            if f.kind(n) != "idx":
                continue
            b, i = (f.skip_casts(f.unwrap(x)) for x in f.kids(n))
            if f.kind(b) != "mem" or f.pay(b)[0] != "items" or f.kind(i) != "var" or f.varkind(f.pay(i))[0] != "p":
                continue
            if f.vartype(f.pay(i)) not in ("int32_t", "int", "PLI_INT32"):
                continue
            ops = set()
            for c in f.walk():
                if f.kind(c) != "bin" or f.pay(c) not in NEG:
                    continue
                l, r = (f.skip_casts(f.unwrap(x)) for x in f.kids(c))
                for x, y, op in ((l, r, f.pay(c)), (r, l, SWAP[f.pay(c)])):
                    if f.kind(x) == "var" and f.pay(x) == f.pay(i) and f.kind(y) == "mem" and f.pay(y)[0] == "count":
                        ops.add(op)
            rep.check("position", bool(ops) and ops <= {"<", ">="}, "%s:%s" % (f.name, f.txt(n)), f.loc(n),
                      "%s reads element %s of a list without comparing it with the length properly" % (f.name, f.varname(f.pay(i))))
