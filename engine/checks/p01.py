"""P01: what the writers of saved files emit is what the readers consume."""
import core
import codec
import wire
from wire import Builder, Compare, single_def
from facts import AnalysisError

WANT = ["src/object.c", "src/ident.c", "src/diag.c", "src/lib.c", "src/fbuf.c", "src/vlog/vlog-number.c",
        "src/cov/cov-data.c", "src/jit/jit-pack.c", "src/jit/jit-core.c", "src/tree.c", "src/common.c"]
EXPLAIN = """
Every writer of a persistent format (design-unit objects, identifiers, source
locations, Verilog numbers, library units and index, coverage database, packed
JIT bytecode) is turned into an automaton over I/O primitives, labelled with
the field each value comes from; its reader likewise with the field each value
goes to.  The writer automaton is simulated against the reader's state set:
every word the writer can emit must be consumed symbol by symbol with the same
encoding, field and (through tag switches and shared field conditions) on the
same branch.  On the symbol pairs so aligned: bit-packed words are unpacked
with the widths and shifts they were packed with, delta-coded fields are
accumulated and remembered, byte counts use the count just transferred, values
emitted from a field are not discarded, and loops transfer the full count.
"""
ASSUME = ["branches on values neither side names as a field are taken independently (over-approximated by the reader)",
          "a primitive encoder/decoder pair written in none of the recognised shapes (varint, zig-zag, fixed width) is inverse; the union punning of write_double/read_double is"]

W = {"write_u8": ("u8", 0), "write_u16": ("u16", 0), "write_u32": ("u32", 0), "write_u64": ("u64", 0),
     "fbuf_put_uint": ("uint", 1), "fbuf_put_int": ("int", 1), "write_double": ("double", 0),
     "write_raw": ("raw", 0, 1)}
R = {"read_u8": ("u8", None), "read_u16": ("u16", None), "read_u32": ("u32", None), "read_u64": ("u64", None),
     "fbuf_get_uint": ("uint", None), "fbuf_get_int": ("int", None), "read_double": ("double", None),
     "read_raw": ("raw", 0, 1)}
# nonterminals: function -> (name, argument that carries the value)
WP = {"ident_write": ("ident", 0), "loc_write": ("loc", 0), "number_write": ("number", 0),
      "object_write_ref": ("ref", 0), "object_write": ("object", 0)}
RP = {"ident_read": ("ident", None), "loc_read": ("loc", 0), "number_read": ("number", None),
      "object_read_ref": ("ref", None), "object_read": ("object", None)}

JW = {"pack_u8": ("u8", 1), "pack_u16": ("u16", 1), "pack_uint": ("uint", 1),
      # carry a transformation of the value: compared as units and, below, on their own
      "pack_int": ("int", 1), "pack_reg": ("reg", 1), "pack_double": ("jdouble", 1)}
JR = {"unpack_uint": ("uint", None), "unpack_u16": ("u16", None),
      "unpack_int": ("int", None), "unpack_reg": ("reg", None), "unpack_double": ("jdouble", None)}
JWP = {"pack_str": ("str", 1), "pack_loc": ("jloc", 1), 
       "pack_handle": ("handle", 2), "pack_locus": ("locus", 1),
       "pack_value": ("value", 2)}
JRP = {"unpack_str": ("str", None), "unpack_loc": ("jloc", None),
       "unpack_handle": ("handle", None),
       "unpack_locus": ("locus", None), "unpack_value": ("value", None)}

FORMATS = [
    # format, prims/pairs set, file, writer, reader, fields that must travel
    ("identifiers", "f", "ident_write", "ident_read", []),
    ("source locations", "f", "loc_write", "loc_read",
     ["w:file_ref", "first_line", "line_delta", "first_column", "column_delta"]),
    ("verilog numbers", "f", "number_write", "number_read", ["bits", "e:width", "e:issigned"]),
    ("object references", "f", "object_write_ref", "object_read_ref", ["w:key"]),
    ("design units", "f", "object_write", "object_read",
     ["flags", "w:key", "std", "checksum", "ident", "object", "ival", "dval", "text", "number", "loc"]),
    ("library unit", "f", "lib_save_unit", "lib_read_unit", ["cover_file"]),
    ("library index", "f", "lib_save", "lib_read_index", ["name", "kind"]),
    ("coverage database", "f", "cover_dump_items", "cover_read_items",
     ["mask", "array_limit", "next_tag", "type", "name", "hier", "loc", "block_name", "kind", "tag", "data",
      "flags", "source", "consecutive", "atleast", "n_ranges", "metadata", "min", "max", "loc_lhs",
      "loc_rhs", "func_name"]),
    ("packed bytecode", "j", "pack_func", "jit_pack_fill",
     ["nirs", "nregs", "nvars", "cpoolsz", "bits", "framesz", "name", "offset", "result", "arg1", "arg2"]),
    ("packed values", "j", "pack_value", "unpack_value",
     ["kind", "reg", "int64", "dval", "disp", "label", "handle", "exit", "loc", "locus"]),
    ("packed registers", "j", "pack_reg", "unpack_reg", []),
    ("packed strings", "j", "pack_str", "unpack_str", []),
    ("packed integers", "j", "pack_int", "unpack_int", []),
    ("packed reals", "j", "pack_double", "unpack_double", []),
    ("packed locations", "j", "pack_loc", "unpack_loc", ["first_line", "first_column"]),
    ("packed handles", "j", "pack_handle", "unpack_handle", []),
    ("packed loci", "j", "pack_locus", "unpack_locus", []),
]


def rptr_read(fn, n):
    """`*x->rptr++`: the reader's inline byte fetch."""
    if fn.kind(n) != "un" or fn.pay(n) != "*":
        return None
    k = fn.unwrap(fn.kids(n)[0])
    if k >= 0 and fn.kind(k) == "un" and fn.pay(k).startswith("post"):
        m = fn.unwrap(fn.kids(k)[0])
        if m >= 0 and fn.kind(m) == "mem" and fn.pay(m)[0] == "rptr":
            return "u8"
    return None


def match(w, r):
    if w.op != r.op:
        if w.op == "u8" and r.op == "uint" and w.const is not None and 0 <= w.const < 128:
            pass
        else:
            return "encoded as %s, decoded as %s" % (w.op, r.op)
    if w.op != "raw" and w.fields and r.fields and not (w.fields & r.fields):
        return "%s goes to %s" % ("/".join(sorted(w.fields)), "/".join(sorted(r.fields)))
    return None


def affine(ctx, n, depth=0):
    """(base var or field key, delta) of var +/- const, sizes, or None."""
    fn = ctx.fn
    n = fn.unwrap(n)
    if n < 0 or depth > 5:
        return None
    k = fn.kind(n)
    if k == "bin" and fn.pay(n) in ("+", "-"):
        a, b = fn.kids(n)
        cb = fn.const(b)
        if cb is not None:
            r = affine(ctx, a, depth + 1)
            if r:
                return r[0], r[1] + (cb if fn.pay(n) == "+" else -cb)
        ca = fn.const(a)
        if ca is not None and fn.pay(n) == "+":
            r = affine(ctx, b, depth + 1)
            if r:
                return r[0], r[1] + ca
        return None
    if k == "un" and fn.pay(n) == "-":
        return affine(ctx, fn.kids(n)[0], depth + 1)
    if k == "var":
        b = ctx.bind(fn.pay(n))
        if b:
            return affine(b[0], b[1], depth + 1)
        return ("v", ctx.id, fn.pay(n)), 0
    if k == "mem":
        p = fn.path(n)
        return (("p", ctx.id, repr(p)), 0) if p else None
    if k == "call":
        return ("c", fn.txt(n)), 0
    return None


def emitted_bases(auto, role, B):
    """Bases of every count transferred."""
    out = set()
    for n, es in auto.edges.items():
        for k, s, d in es:
            if k in ("sym",) and s.op in ("uint", "int", "u32", "u16", "u8"):
                if role == "w" and s.expr is not None:
                    a = affine(s.ctx, s.expr)
                    if a:
                        out.add(a)
                        if a[0][0] == "v" and a[0][1] == s.ctx.id:
                            d0 = single_def(s.ctx.fn, a[0][2])
                            if d0 is not None:
                                r = affine(s.ctx, d0)
                                if r:
                                    out.add((r[0], r[1] + a[1]))
                elif role == "r":
                    if s.dest is not None:
                        out.add((s.dest, 0))
                    for f in s.fields:
                        out.add((("f", f), 0))
    return out


def bits_of_writer(B, ctx, n, shift=0, depth=0):
    """OR-composition: [(fields, shift)] or None."""
    fn = ctx.fn
    n = fn.unwrap(n)
    if n < 0 or depth > 10:
        return None
    k = fn.kind(n)
    if k == "bin" and fn.pay(n) in ("|", "+"):
        a = bits_of_writer(B, ctx, fn.kids(n)[0], shift, depth + 1)
        b = bits_of_writer(B, ctx, fn.kids(n)[1], shift, depth + 1)
        return None if a is None or b is None else a + b
    if k == "bin" and fn.pay(n) == "<<" and fn.const(fn.kids(n)[1]) is not None:
        return bits_of_writer(B, ctx, fn.kids(n)[0], shift + fn.const(fn.kids(n)[1]), depth + 1)
    if k == "bin" and fn.pay(n) == "&" and fn.const(fn.kids(n)[1]) is not None:
        return bits_of_writer(B, ctx, fn.kids(n)[0], shift, depth + 1)
    if k == "var":
        d = single_def(fn, fn.pay(n))
        if d is not None and fn.kind(fn.unwrap(d)) == "bin":
            return bits_of_writer(B, ctx, d, shift, depth + 1)
    f = B.fields(ctx, n)
    return [(f, shift)] if f else None


def bits_of_reader(B, ctx, v):
    """{(shift, mask or None): destination fields/variables}"""
    fn = ctx.fn
    out = []
    for n in fn.walk():
        if fn.kind(n) != "var" or fn.pay(n) != v:
            continue
        x, par = n, fn.parent(n)
        shift, mask = 0, None
        used = False
        while par >= 0:
            k = fn.kind(par)
            if k == "cast":
                x, par = par, fn.parent(par)
                continue
            if k == "bin" and fn.pay(par) == ">>" and fn.kids(par)[0] == x and fn.const(fn.kids(par)[1]) is not None:
                shift += fn.const(fn.kids(par)[1])
                used = True
            elif k == "bin" and fn.pay(par) == "&":
                a, b = fn.kids(par)
                c = fn.const(b) if a == x else fn.const(a)
                if c is None:
                    break
                mask = c if mask is None else mask & c
                used = True
            else:
                break
            x, par = par, fn.parent(par)
        if not used or par < 0:
            continue
        fs = frozenset()
        names = frozenset()
        if fn.kind(par) == "asg":
            fs = B.fields_lv(fn, fn.kids(par)[0])
        elif fn.kind(par) == "decl":
            for var, init in fn.pay(par):
                if fn.skip_casts(init) == fn.skip_casts(x):
                    fs = B.var_sinks(ctx, var)
                    names = frozenset([fn.varname(var)])
        out.append((shift, mask, fs, names, n))
    return out


def run(prog, rep):
    rep.rule("format", "every word the writer emits is consumed symbol by symbol by the reader, each value into the field it came from")
    rep.rule("carried", "every field confirmed as persistent is emitted by the writer and stored by the reader")
    rep.rule("packed", "a word packed from several fields is unpacked with the same shifts and widths")
    rep.rule("delta", "a field sent as a difference is accumulated by the reader and remembered by the writer")
    rep.rule("length", "a run of bytes is as long as the count transferred before it, on both sides")
    rep.rule("full-range", "a loop that transfers elements runs from zero to the transferred count")
    rep.rule("kept", "a value sent from a field is not discarded by the reader")
    rep.rule("codec", "a number decoder undoes its encoder: the same step, mask, flag and byte order on both sides, in the full width of the value")
    rep.rule("index", "a name sent in full takes exactly one new index on both sides, and one sent by index none")
    LENS.clear()
    check_codecs(prog, rep)
    check_index(prog, rep)
    autos = {}
    for title, kind, wn, rn, need in FORMATS:
        wf, rf = prog.fn(wn), prog.fn(rn)
        if kind == "f":
            BW = Builder(prog, W, {k: v for k, v in WP.items() if k != wn and prog.by_name.get(k)}, "w")
            BR = Builder(prog, R, {k: v for k, v in RP.items() if k != rn and prog.by_name.get(k)}, "r")
        else:
            BW = Builder(prog, {k: v for k, v in JW.items() if k != wn}, {k: v for k, v in JWP.items() if k != wn and prog.by_name.get(k)}, "w")
            BR = Builder(prog, {k: v for k, v in JR.items() if k != rn}, {k: v for k, v in JRP.items() if k != rn and prog.by_name.get(k)}, "r",
                         pseudo=rptr_read)
        wa, ra = BW.build(wf), BR.build(rf)
        nsym = sum(1 for es in wa.edges.values() for k, s, d in es if k in ("sym", "nt"))
        cmp = Compare(wa, ra, match)
        viol = cmp.run()
        if not nsym:
            raise AnalysisError("%s: no I/O found in the writer" % title)
        for s in sorted({x[0] for x in cmp.matched}):
            rep.ok("format", "%s: %s" % (title, s))
        done = set()
        for k, s, why in viol:
            if k == "sym":
                key = "%s:%s" % (title, s.fn.name)
                if key in done:
                    continue
                done.add(key)
                rep.bad("format", key, s.site, "%s: '%s' has no counterpart in %s: it expects %s"
                        % (title, s.txt, rn, "; ".join(why)[:300] or "the end of the data"))
            else:
                key = "%s:end" % title
                if key in done:
                    continue
                done.add(key)
                rep.bad("format", key, rf.loc(rf.body), "%s: the writer stops while %s still expects %s"
                        % (title, rn, "; ".join(why)[:300]))
        wfields = set()
        rfields = set()
        for a, acc in ((wa, wfields), (ra, rfields)):
            for es in a.edges.values():
                for k, s, d in es:
                    if k in ("sym", "nt"):
                        acc |= s.fields
        for f in need:
            if f.startswith("e:"):
                # part of a combined value
                f = f[2:]
                ok = any(f in mentions(s) for es in wa.edges.values() for k, s, d in es if k == "sym")
                rep.check("carried", ok, "%s:w:%s" % (title, f), wf.loc(wf.body), "%s: '%s' is not saved" % (title, f))
                ok = any(rf.kind(n) == "asg" and f in BR.fields_lv(rf, rf.kids(n)[0])
                         and rf.const(rf.kids(n)[1]) is None for n in rf.walk())
                rep.check("carried", ok, "%s:r:%s" % (title, f), rf.loc(rf.body), "%s: '%s' is not restored" % (title, f))
                continue
            wonly = f.startswith("w:")
            f = f[2:] if wonly else f
            rep.check("carried", f in wfields, "%s:w:%s" % (title, f), wf.loc(wf.body),
                      "%s: field '%s' is not saved" % (title, f))
            if wonly:
                continue
            rep.check("carried", f in rfields, "%s:r:%s" % (title, f), rf.loc(rf.body),
                      "%s: field '%s' is not restored" % (title, f))
        # aligned symbol pairs
        seen = set()
        groups = {}
        for w, r in cmp.pairs:
            groups.setdefault((w.site, w.op), (w, []))[1].append(r)
        for (site, op), (w, rs) in sorted(groups.items(), key=lambda x: x[0]):
            if w.expr is None:
                continue
            parts = bits_of_writer(BW, w.ctx, w.expr)
            if parts and len(parts) > 1:
                check_packed(rep, title, BW, BR, w, rs, parts)
            if w.delta:
                check_delta(rep, title, BW, w, rs)
            if w.fields and w.op != "raw":
                good = any(not r.disc for r in rs)
                rep.check("kept", good, "%s:%s" % (title, "/".join(sorted(w.fields))), rs[0].site,
                          "%s: the value of '%s' is read and thrown away" % (title, "/".join(sorted(w.fields))))
        check_raw(rep, title, wa, "w", BW)
        check_raw(rep, title, ra, "r", BR)
        check_terms(rep, title, wa, ra, BW, BR)
        check_loops(rep, title, wa, "w", BW)
        check_loops(rep, title, ra, "r", BR)
    rep.require("codec", 4)
    rep.require("index", 2)
    rep.require("format", 60)
    rep.require("packed", 2)
    rep.require("delta", 4)
    rep.require("full-range", 8)


def check_packed(rep, title, BW, BR, w, rs, parts):
    parts = sorted(parts, key=lambda x: x[1])
    for r in rs:
        if r.dest is None:
            continue
        un = bits_of_reader(BR, r.ctx, r.dest[2])
        if not un:
            continue
        for i, (fs, sh) in enumerate(parts):
            width = parts[i + 1][1] - sh if i + 1 < len(parts) else None
            cand = [u for u in un if (u[2] | u[3]) & fs]
            if not cand:
                cand = [u for u in un if u[0] == sh and not u[2]]
            key = "%s:%s" % (title, "/".join(sorted(fs)))
            good = [u for u in cand if u[0] == sh and
                    (width is None and (u[1] is None or u[1] & 0xff) or width is not None and u[1] == (1 << width) - 1)]
            rep.check("packed", bool(good), key, r.site,
                      "%s: '%s' is packed at bit %d%s but unpacked as %s"
                      % (title, "/".join(sorted(fs)), sh, " (%d bits)" % width if width else "",
                         ", ".join("shift %d mask %s" % (u[0], hex(u[1]) if u[1] is not None else "none") for u in cand) or "nothing"))


def check_delta(rep, title, BW, w, rs):
    fn = w.ctx.fn
    x = fn.unwrap(w.expr)
    ctx = w.ctx
    for _ in range(4):
        v = fn.var_of(x)
        if v is None:
            break
        d = single_def(fn, v)
        if d is None:
            return
        x = fn.unwrap(d)
    if fn.kind(x) != "bin":
        return
    a, b = fn.kids(x)
    name = "/".join(sorted(w.fields))
    key = "%s:%s" % (title, name)
    fb = BW.fields(ctx, b)
    rep.check("delta", fb == w.fields, key + ":base", w.site,
              "%s: '%s' is sent relative to '%s'" % (title, name, "/".join(sorted(fb))))
    rep.check("delta", any(r.delta for r in rs), key + ":acc", rs[0].site,
              "%s: '%s' is sent as a difference but not accumulated by the reader" % (title, name))
    # the remembered value is updated from the value sent
    root = b
    upd = set()
    pb = fn.path(b)
    pa = fn.path(a)
    for n in fn.walk():
        if fn.kind(n) == "asg" and fn.pay(n) == "=":
            lp, rp = fn.path(fn.kids(n)[0]), fn.path(fn.kids(n)[1])
            if lp is None or rp is None:
                continue
            if lp == pb and rp == pa:
                upd.add(n)
            # whole-struct copy
            if pb[0] == "m" and pa[0] == "m" and lp == pb[1] and (rp == pa[1] or rp == ("d", pa[1])):
                upd.add(n)
    good = bool(upd) and not escapes(fn, set(fn.calls(set(W) | set(JW))), upd)
    rep.check("delta", good, key + ":mem", w.site,
              "%s: the base '%s' of the difference is not updated to the value just sent on every path" % (title, fn.txt(b)))


def escapes(fn, emit, upd):
    """Can the function return having emitted something but not updated?"""
    def tr(st, e, b, i):
        if e in upd:
            return frozenset((em, True) for em, u in st)
        if e in emit:
            return frozenset((True, u) for em, u in st)
        return st
    ins = core.forward(fn, frozenset([(False, False)]), tr, None, lambda a, b: a | b)
    return (True, False) in ins.get(fn.cfg.exit, ())


def mentions(s):
    out = set()
    fn = s.ctx.fn
    if s.expr is None:
        return out
    for n in fn.walk(s.expr):
        if fn.kind(n) == "mem":
            out.add(fn.pay(n)[0])
    return out


def check_raw(rep, title, auto, role, B):
    bases = emitted_bases(auto, role, B)
    done = set()
    for n, es in auto.edges.items():
        for k, s, d in es:
            if k != "sym" or s.op != "raw" or s.len is None or s.site in done:
                continue
            ctx, ln = s.len
            a = affine(ctx, ln)
            if a is None:
                continue
            done.add(s.site)
            names = {b[0]: set() for b in bases}
            for b in bases:
                names[b[0]].add(b[1])
            if a[0] in names:
                delta = {a[1] - x for x in names[a[0]]}
                rep.check("length", min(abs(x) for x in delta) <= 1, "%s:%s" % (title, s.fn.name), s.site,
                          "%s: '%s' transfers a length other than the one sent" % (title, s.txt))
                LENS.setdefault((title, role), []).append((min(delta, key=abs), s))
    if role == "r":
        lw = sorted(x[0] for x in LENS.get((title, "w"), []))
        lr = sorted(x[0] for x in LENS.get((title, "r"), []))
        if lw and lr:
            s = LENS[(title, "r")][0][1]
            rep.check("length", set(lw) == set(lr), "%s:delta" % title, s.site,
                      "%s: bytes beyond the transferred count: written %s, read %s" % (title, lw, lr))


LENS = {}

CODECS = [("fbuf_put_uint", "fbuf_get_uint"), ("fbuf_put_int", "fbuf_get_int"),
          ("encode_number", "decode_number"), ("pack_int", "unpack_int"),
          ("pack_writer_emit", "jit_pack_fill"),
          ("write_u16", "read_u16"), ("write_u32", "read_u32"), ("write_u64", "read_u64"),
          ("pack_u16", "unpack_u16")]


def check_codecs(prog, rep):
    for wn, rn in CODECS:
        if not prog.by_name.get(wn) or not prog.by_name.get(rn):
            continue
        wf, rf = prog.fn(wn), prog.fn(rn)
        steps = {}
        for side, fn in (("w", wf), ("r", rf)):
            for sd, n, step, mask, flag, widths in codec.varints(prog, fn):
                if sd != side:
                    continue
                key = "%s:%s" % (wn, side)
                steps.setdefault(side, []).append((step, n))
                rep.check("codec", mask == (1 << step) - 1, key + ":mask", fn.loc(n),
                          "%s: a group of %d bits is taken with the mask %#x" % (fn.name, step, mask))
                rep.check("codec", flag == 1 << step, key + ":flag", fn.loc(n),
                          "%s: the continuation flag is %#x, the group is %d bits" % (fn.name, flag, step))
                for what, wd in widths:
                    if wd is not None:
                        rep.check("codec", wd == 64, "%s:width:%s" % (key, what), fn.loc(n),
                                  "%s: '%s' holds only %d bits of the 64-bit value" % (fn.name, what, wd))
            for sd, n, good, why in codec.zigzags(prog, fn):
                if sd == side:
                    rep.check("codec", good, "%s:%s:zigzag" % (wn, side), fn.loc(n), "%s: %s" % (fn.name, why))
        if "w" in steps and "r" in steps:
            rep.check("codec", {s for s, _ in steps["w"]} == {s for s, _ in steps["r"]}, wn + ":step",
                      rf.loc(steps["r"][0][1]), "%s emits groups of another size than %s reads" % (wn, rn))
        if not steps:
            ws, rs = codec.fixed(prog, wf, ">>"), codec.fixed(prog, rf, "<<")
            pb = None
            for p in wf.params:
                b = codec.bits(prog, wf.vartype(p))
                pb = b if pb is None else pb
            rb = codec.bits(prog, wf.types[rf.ret] if isinstance(rf.ret, int) else rf.ret)
            if len(ws) >= 2 and len(rs) >= 2:
                w, r = [x[0] for x in ws], [x[0] for x in rs]
                rep.check("codec", w == r, wn + ":order", rf.loc(rf.body),
                          "%s writes the bytes at bits %s, %s reads them at %s" % (wn, w, rn, r))
                if len(w) > 2 or w[0] == 0:
                    tot = max(w) + 8
                    rep.check("codec", sorted(w) == list(range(0, tot, 8)), wn + ":all", wf.loc(wf.body),
                              "%s writes the bytes at bits %s only" % (wn, w))
                    rep.check("codec", all(b is None or b >= min(tot, 32) and b > s for s, b in rs), wn + ":shift",
                              rf.loc(rf.body), "%s shifts bytes out of the word" % rn)


def forwardees(prog, fn, pred):
    """Nodes of fn satisfying pred, and calls to file-local helpers whose
    body has one."""
    out = set()
    for n in fn.walk():
        if pred(fn, n):
            out.add(n)
        elif fn.kind(n) == "call":
            g = prog.callee(fn, n)
            if g is not None and g is not fn and getattr(g, "static", False) and g.body is not None and any(pred(g, m) for m in g.walk()):
                out.add(n)
    return out


def check_index(prog, rep):
    def bump(field):
        def p(f, n):
            if f.kind(n) == "un" and f.pay(n) in ("pre++", "post++"):
                k = f.unwrap(f.kids(n)[0])
            elif f.kind(n) == "asg" and f.pay(n) == "+=" and f.const(f.kids(n)[1]) == 1:
                k = f.unwrap(f.kids(n)[0])
            else:
                return False
            return k >= 0 and f.kind(k) == "mem" and f.pay(k)[0] == field
        return p

    for name, field, emit in (("ident_write", "next_index", "write_raw"), ("ident_read", "cache_sz", "ident_new")):
        f = prog.fn(name)
        em = forwardees(prog, f, lambda g, n: g.kind(n) == "call" and g.callee(n) == emit)
        inc = forwardees(prog, f, bump(field))
        if not em or not inc:
            continue

        def tr(st, e, b, i):
            if isinstance(e, int):
                if e in em:
                    st = frozenset((True, c) for x, c in st)
                if e in inc:
                    st = frozenset((x, min(c + 1, 2)) for x, c in st)
            return st

        ins = core.forward(f, frozenset([(False, 0)]), tr, None, lambda a, b: a | b)
        end = ins.get(f.cfg.exit, frozenset())
        rep.check("index", not any(x and c != 1 for x, c in end), name + ":full", f.loc(f.body),
                  "%s: after a name is transferred in full '%s' does not advance by exactly one on every path" % (name, field))
        rep.check("index", not any(not x and c for x, c in end), name + ":ref", f.loc(f.body),
                  "%s: '%s' advances although no new name is transferred" % (name, field))


def check_terms(rep, title, wa, ra, BW, BR):
    """Byte counts computed from a field: the same function on both sides."""
    terms = {}
    for role, auto, B in (("w", wa, BW), ("r", ra, BR)):
        for n, es in auto.edges.items():
            for k, s, d in es:
                if k != "sym" or s.op != "raw" or s.len is None:
                    continue
                ctx, ln = s.len
                if affine(ctx, ln) is not None:
                    continue
                t = codec.term(B, ctx, ln, role, single_def)
                if t is not None and codec.leaves(t):
                    terms.setdefault(role, {})[s.site] = (t, s)
    if "w" not in terms or "r" not in terms:
        return
    for site, (t, s) in sorted(terms["r"].items()):
        cand = [codec.differ(w, t) for w, _ in terms["w"].values()]
        cand = [c for c in cand if c is not False]
        if not cand:
            continue
        bad = None if any(c is None for c in cand) else cand[0]
        rep.check("length", bad is None, "%s:%s:count" % (title, "/".join(sorted(codec.leaves(t)))), s.site,
                  "%s: the number of bytes read is not the number written%s" % (title, " (%s = %d)" % bad if bad else ""))


def check_loops(rep, title, auto, role, B):
    """Counted for-loops around I/O."""
    fns = {}
    for n, es in auto.edges.items():
        for k, s, d in es:
            if k in ("sym", "nt"):
                fns.setdefault(s.fn, set()).add(s.node)
    for f, nodes in sorted(fns.items(), key=lambda x: x[0].name):
        for n in f.walk():
            if f.kind(n) != "for":
                continue
            init, cond, inc, body = (list(f.kids(n)) + [-1] * 4)[:4]
            inside = set(f.walk(body)) if body >= 0 else set()
            if not (inside & nodes):
                continue
            c = f.unwrap(cond)
            if c < 0 or f.kind(c) != "bin" or f.pay(c) not in ("<", "<=", ">", ">=", "!="):
                continue
            a, b = f.kids(c)
            op = f.pay(c)
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            iv = f.var_of(a)
            if iv is None:
                continue
            start = None
            if init >= 0 and f.kind(init) == "decl":
                for var, i0 in f.pay(init):
                    if var == iv and i0 >= 0:
                        start = f.const(i0)
            elif init >= 0 and f.kind(init) == "asg" and f.var_of(f.kids(init)[0]) == iv:
                start = f.const(f.kids(init)[1])
            if start is None:
                continue
            ctx = wire.Ctx(f)
            aff = affine(ctx, b)
            off = aff[1] if aff else 0
            key = "%s:%s:%s" % (title, f.name, f.txt(b))
            rep.check("full-range", start + (0 if op != "<=" else -1) - off == 0, key, f.loc(n),
                      "%s: the loop 'from %s while %s' does not cover the whole count" % (title, start, f.txt(c)))
