"""Inverse pairs of primitive encoders and decoders, read off the syntax tree.

Three shapes are recognised: base-2^k variable length numbers, zig-zag
numbers and fixed-width little-endian sequences.  Code in any other shape is
left alone.
"""
BITS = {"int8_t": 8, "uint8_t": 8, "char": 8, "int16_t": 16, "uint16_t": 16, "int32_t": 32,
        "uint32_t": 32, "int": 32, "unsigned int": 32, "unsigned": 32, "int64_t": 64, "uint64_t": 64,
        "size_t": 64, "long": 64, "unsigned long": 64, "ssize_t": 64, "signed char": 8,
        "unsigned char": 8, "short": 16, "unsigned short": 16, "long long": 64, "unsigned long long": 64,
        "bool": 8, "_Bool": 8}
SIGNED = {"int8_t", "int16_t", "int32_t", "int", "int64_t", "long", "ssize_t", "short", "long long", "signed char"}


def canon(prog, ty, depth=0):
    ty = (ty or "").replace("const ", "").replace("volatile ", "").strip()
    if ty in BITS or depth > 5:
        return ty
    td = prog.typedefs.get(ty)
    return canon(prog, td["canon"], depth + 1) if td and td["canon"] != ty else ty


def bits(prog, ty):
    return BITS.get(canon(prog, ty))


def signed(prog, ty):
    return canon(prog, ty) in SIGNED


def loops(fn):
    for n in fn.walk():
        if fn.kind(n) in ("for", "while", "do"):
            yield n


def innermost(fn):
    ls = list(loops(fn))
    for n in ls:
        inside = set(fn.walk(n)) - {n}
        if not any(m in inside for m in ls):
            yield n, inside


def strip(fn, n):
    return fn.skip_casts(fn.unwrap(n))


def operand(fn, n, op):
    """(a, const b) of `a op const` (either order for commutative ones)."""
    if fn.kind(n) != "bin" or fn.pay(n) != op:
        return None
    a, b = fn.kids(n)
    if fn.const(b) is not None:
        return a, fn.const(b)
    if op in "&|^+*" and fn.const(a) is not None:
        return b, fn.const(a)
    return None


def varints(prog, fn):
    """[(side, loop, step, mask, flag, [(what, width)])]"""
    out = []
    for n, inside in innermost(fn):
        step = var = None
        for m in inside:
            if fn.kind(m) == "asg" and fn.pay(m) == ">>=":
                c = fn.const(fn.kids(m)[1])
                v = fn.var_of(fn.kids(m)[0])
                if c is not None and v is not None and 0 < c < 32:
                    step, var = c, v
        if var is not None:
            masks = set()
            flags = set()
            for m in inside:
                r = operand(fn, m, "&") if fn.kind(m) == "bin" else None
                if r and fn.var_of(strip(fn, r[0])) == var:
                    masks.add(r[1])
                if fn.kind(m) == "asg" and fn.pay(m) == "|=" and fn.const(fn.kids(m)[1]) is not None:
                    flags.add(fn.const(fn.kids(m)[1]))
                r = operand(fn, m, "|") if fn.kind(m) == "bin" else None
                if r:
                    flags.add(r[1])
            if len(masks) == 1 and len(flags) == 1:
                out.append(("w", n, step, masks.pop(), flags.pop(), [(fn.varname(var), bits(prog, fn.vartype(var)))]))
            continue
        sh = None
        for m in inside:
            if fn.kind(m) == "bin" and fn.pay(m) == "<<" and fn.const(fn.kids(m)[1]) is None:
                v = fn.var_of(strip(fn, fn.kids(m)[1]))
                if v is not None:
                    sh = (m, v)
        if sh is None:
            continue
        m, v = sh
        for k in inside:
            if fn.kind(k) == "asg" and fn.pay(k) == "+=" and fn.var_of(fn.kids(k)[0]) == v:
                step = fn.const(fn.kids(k)[1])
        if step is None:
            continue
        x = strip(fn, fn.kids(m)[0])
        r = operand(fn, x, "&") if x >= 0 and fn.kind(x) == "bin" else None
        if not r:
            continue
        mask = r[1]
        b = fn.var_of(strip(fn, r[0]))
        flags = set()
        for k in inside:
            q = operand(fn, k, "&") if fn.kind(k) == "bin" else None
            if q and q[1] != mask and b is not None and fn.var_of(strip(fn, q[0])) == b:
                flags.add(q[1])
        if len(flags) != 1:
            continue
        widths = [("the shifted operand", bits(prog, fn.type(m)))]
        p = fn.parent(m)
        while p >= 0 and fn.kind(p) in ("cast", "paren"):
            p = fn.parent(p)
        if p >= 0 and fn.kind(p) == "asg" and fn.pay(p) in ("|=", "+="):
            a = fn.var_of(fn.kids(p)[0])
            if a is not None:
                widths.append((fn.varname(a), bits(prog, fn.vartype(a))))
        # what the loop starts from
        out.append(("r", n, step, mask, flags.pop(), widths))
    return out


def zigzags(prog, fn):
    """[(side, node, good, message)]"""
    out = []
    for n in fn.walk():
        if fn.kind(n) != "bin" or fn.pay(n) != "^":
            continue
        a, b = [strip(fn, k) for k in fn.kids(n)]
        for x, y in ((a, b), (b, a)):
            if fn.kind(x) == "bin" and fn.pay(x) == "<<" and fn.kind(y) == "bin" and fn.pay(y) == ">>":
                cx, cy = fn.const(fn.kids(x)[1]), fn.const(fn.kids(y)[1])
                v, w = [fn.var_of(strip(fn, fn.kids(k)[0])) for k in (x, y)]
                if cx is None or cy is None or v is None or v != w:
                    continue
                bw, bx = bits(prog, fn.type(y)), bits(prog, fn.type(x))
                sg = signed(prog, fn.type(y))
                if bw is None or bx is None:
                    continue
                out.append(("w", n, cx == 1 and sg and bw == 64 and bx == 64 and cy == bw - 1,
                            "the sign of a %d-bit %s value is taken with '>> %d' and the magnitude with '<< %d' (%d bits)"
                            % (bw, "signed" if sg else "unsigned", cy, cx, bx)))
                break
            if fn.kind(x) == "bin" and fn.pay(x) == ">>" and fn.kind(y) == "un" and fn.pay(y) == "-":
                z = operand(fn, strip(fn, fn.kids(y)[0]), "&")
                cx = fn.const(fn.kids(x)[1])
                if not z or cx is None:
                    continue
                bx, by = bits(prog, fn.type(x)), bits(prog, fn.type(y))
                if bx is None or by is None:
                    continue
                out.append(("r", n, cx == 1 and z[1] == 1 and not signed(prog, fn.type(x)) and bx == 64 and by == 64,
                            "decoded with '>> %d' and '& %d' in %d/%d bits" % (cx, z[1], bx, by)))
                break
    return out


def fixed(prog, fn, op):
    """Constant shift amounts in order, with the widths they are done in."""
    out = []
    for n in fn.walk():
        if fn.kind(n) == "bin" and fn.pay(n) == op and fn.const(fn.kids(n)[1]) is not None:
            out.append((fn.const(fn.kids(n)[1]), bits(prog, fn.type(n))))
    return out


# ------------------------------------------------------------ count expressions

def term(B, ctx, n, role, single_def, depth=0):
    """Normal form of a count over the fields it is computed from."""
    fn = ctx.fn
    n = fn.skip_casts(fn.unwrap(n))
    if n < 0 or depth > 12:
        return None
    if fn.const(n) is not None:
        return fn.const(n)
    k = fn.kind(n)
    if k == "bin" and fn.pay(n) in ("+", "-", "*", "/", ">>", "<<"):
        a = term(B, ctx, fn.kids(n)[0], role, single_def, depth + 1)
        b = term(B, ctx, fn.kids(n)[1], role, single_def, depth + 1)
        return None if a is None or b is None else (fn.pay(n), a, b)
    if k == "var":
        if role == "r":
            s = B.var_sinks(ctx, fn.pay(n))
            if len(s) == 1:
                return next(iter(s))
        d = single_def(fn, fn.pay(n))
        if d is not None:
            return term(B, ctx, d, role, single_def, depth + 1)
        return None
    if k == "mem":
        return fn.pay(n)[0]
    return None


def leaves(t):
    if isinstance(t, str):
        return {t}
    if isinstance(t, tuple):
        return leaves(t[1]) | leaves(t[2])
    return set()


def value(t, env):
    if isinstance(t, int):
        return t
    if isinstance(t, str):
        return env[t]
    a, b = value(t[1], env), value(t[2], env)
    if t[0] == "+":
        return a + b
    if t[0] == "-":
        return a - b
    if t[0] == "*":
        return a * b
    if t[0] == "/":
        return a // b if b else None
    if t[0] == ">>":
        return a >> b
    return a << b


def differ(a, b):
    """A field value on which two normal forms disagree, None if none is
    found, or False when they range over different fields."""
    if a == b:
        return None
    la, lb = leaves(a), leaves(b)
    if la != lb or len(la) != 1:
        return False
    f = next(iter(la))
    for x in list(range(0, 520)) + [1 << k for k in range(10, 20)] + [(1 << k) + 1 for k in range(10, 20)]:
        try:
            if value(a, {f: x}) != value(b, {f: x}):
                return f, x
        except TypeError:
            return False
    return None
