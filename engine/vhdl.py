"""A small reader for the declarations of the VHDL libraries in lib/."""
import glob
import os
import re

TOK = re.compile(r"--[^\n]*|/\*.*?\*/|\"(?:[^\"]|\"\")*\"|'.'|\\[^\\]*\\|[A-Za-z][A-Za-z0-9_]*|\d[\w.#]*|:=|=>|<>|\*\*|<=|>=|/=|.", re.S)


class Sub:
    def __init__(self, lib, pkg, kind, name, params, ret, file, line):
        self.lib, self.pkg, self.kind, self.name, self.params, self.ret = lib, pkg, kind, name, params, ret
        self.file, self.line = file, line
        self.body = None        # tokens of the body
        self.result = set()     # 'to' / 'downto' / '?' of returned arrays


class Library:
    """types: (pkg, name) -> category; subs; foreign: list of (symbol, convention, Sub)"""

    def __init__(self, root):
        self.root = root
        self.types, self.subs, self.foreign, self.consts, self.enums, self.records = {}, [], [], {}, {}, {}
        self.bits, self.bases = {}, {}
        pats = ["lib/*/*.vhd", "lib/*/*.vhdl"]
        files = sorted(f for p in pats for f in glob.glob(os.path.join(root, p)))
        self.files = files
        raw = []
        for f in files:
            d = os.path.basename(os.path.dirname(f)).split(".")[0]
            lib = {"synopsys": "ieee", "vital": "ieee"}.get(d, d)
            toks = tokens(open(f, errors="replace").read())
            raw.append((f, lib, toks))
        for f, lib, toks in raw:
            self.scan(os.path.relpath(f, root), lib, toks)

    def scan(self, file, lib, T):
        pkg, attrs, here = None, [], []
        i, n = 0, len(T)
        while i < n:
            t = T[i][0]
            if t == "package":
                j = i + 1
                if T[j][0] == "body":
                    j += 1
                if T[j + 1][0] == "is":
                    pkg = T[j][0]
            elif t in ("type", "subtype") and i + 2 < n and T[i + 2][0] == "is" and pkg:
                j = i + 3
                while T[j][0] != ";" and not (T[i][0] == "type" and T[j][0] in ("record", "protected", "units")):
                    j += 1
                self.typedecl(file, pkg, T[i + 1][0], [x for x, *_ in T[i + 3:j + 1]], t, T, i + 3)
            elif t in ("function", "procedure") and pkg and T[i - 1][0] not in ("end", ":") and \
                    T[i + 1][0] != ";" and T[i + 2][0] in ("(", "return", ";", "is") and \
                    not (i >= 2 and T[i - 1][0] == "is" and False):
                s, i = self.subprogram(file, lib, pkg, T, i)
                if s is not None:
                    here.append(s)
                    self.subs.append(s)
                continue
            elif t == "attribute" and T[i + 1][0] == "foreign" and T[i + 2][0] == "of":
                name = T[i + 3][0]
                j, sig = i + 4, None
                if T[j][0] == "[":
                    sig = []
                    j += 1
                    while T[j][0] != "]":
                        if T[j][0] == "return":
                            sig.append("return")
                        elif T[j][0] != ",":
                            sig.append(T[j][0])
                        j += 1
                while T[j][0] != "is":
                    j += 1
                if T[j + 1][0].startswith('"'):
                    attrs.append((name, sig, T[j + 1][2].strip('"'), len(here), file, T[i][1]))
            elif t == "constant" and T[i + 2][0] == ":" and pkg:
                j = i + 3
                while T[j][0] not in (";",):
                    j += 1
                self.consts.setdefault((pkg, T[i + 1][0]), []).append((file, T[i][1], [x for x, *_ in T[i + 3:j]]))
            i += 1
        for name, sig, spec, at, f, line in attrs:
            cand = [s for s in here if s.name == name]
            if sig is not None:
                ps = sig[:sig.index("return")] if "return" in sig else sig
                rt = sig[sig.index("return") + 1] if "return" in sig else None
                cand = [s for s in cand if [p[2] for p in s.params] == ps and s.ret == rt]
            # the declaration next to the attribute
            self.foreign.append((spec, cand, f, line))

    def typedecl(self, file, pkg, name, d, what, T, i):
        cat = None
        d = [x if isinstance(x, str) else x for x in d]
        if what == "type":
            if d[0] == "array":
                cat = "U" if "<>" in d else "P"
            elif d[0] == "record":
                cat = "P"
                j, names, fields = i + 1, [], []
                while T[j][0] != "end":
                    if T[j][0] == ":":
                        tn = T[j + 1][0]
                        fields += [(x, tn) for x in names]
                        names = []
                        while T[j][0] != ";":
                            j += 1
                    elif T[j][0] != ",":
                        names.append(T[j][0])
                    j += 1
                self.records[(pkg, name)] = (fields, file)
            elif d[0] in ("access", "protected", "file"):
                cat = "P"
            elif d[0] == "(":
                cat = "I"
                self.enums.setdefault((pkg, name), []).append(([x for x in d[1:] if x not in (",", ")", ";")], file, T[i][1]))
                self.bits[(file, name)] = 1
            elif d[0] == "range":
                cat = "R" if any(re.match(r"\d+\.\d", x) for x in d) or name == "real" else "I"
                if cat == "I":
                    w = bounds(d)
                    if w:
                        self.bits[(file, name)] = w
            elif d[0] == "new":
                cat = self.cat(pkg, d[1])
        else:
            j = 0
            if d[0] == "(":
                j = d.index(")") + 1
            base = d[j]
            rest = d[j + 1:]
            if rest and re.match(r"[a-z]", rest[0]) and rest[0] not in ("range",):
                base, rest = rest[0], rest[1:]     # resolution function first
            if base in ("ieee", "std", "work") and rest and rest[0] == ".":
                base = d[-2]
            self.bases[(file, name)] = base
            cat = self.cat(pkg, base)
            if cat == "U" and rest and rest[0] == "(":
                cat = "P"
        if cat:
            self.types[(pkg, name)] = cat

    BASE = {"integer": "I", "natural": "I", "positive": "I", "boolean": "I", "bit": "I", "character": "I", "time": "I",
            "real": "R", "string": "U", "bit_vector": "U", "std_logic": "I", "std_ulogic": "I", "std_logic_vector": "U",
            "std_ulogic_vector": "U", "line": "P", "side": "I", "severity_level": "I", "delay_length": "I", "text": "P",
            "file_open_kind": "I", "file_open_status": "I"}

    def cat(self, pkg, t):
        if t in self.BASE:
            return self.BASE[t]
        if (pkg, t) in self.types:
            return self.types[(pkg, t)]
        cs = {c for (p, n), c in self.types.items() if n == t}
        return cs.pop() if len(cs) == 1 else None

    def width(self, file, t, seen=()):
        """Bytes of a scalar type named in a file (the newest standard decides the predefined types)."""
        d = os.path.dirname(file)
        cand = {w for (f, n), w in self.bits.items() if n == t and os.path.dirname(f) == d} or \
            {w for (f, n), w in self.bits.items() if n == t}
        if cand:
            return max(cand) if len(cand) == 1 or t not in ("integer", "time") else \
                max(w for (f, n), w in self.bits.items() if n == t and (".19" in f) == (".19" in file))
        b = {b for (f, n), b in self.bases.items() if n == t}
        if len(b) == 1 and t not in seen:
            return self.width(file, b.pop(), seen + (t,))
        return None

    def subprogram(self, file, lib, pkg, T, i):
        kind, name, line = T[i][0], T[i + 1][0], T[i][1]
        j = i + 2
        params, ret = [], None
        if T[j][0] == "(":
            j += 1
            names, depth = [], 1
            cur = []
            while depth:
                t = T[j][0]
                if t == "(":
                    depth += 1
                elif t == ")":
                    depth -= 1
                if depth == 0 or t == ";" and depth == 1:
                    params += param(cur, kind)
                    cur = []
                else:
                    cur.append(t)
                j += 1
        if T[j][0] == "return":
            j += 1
            ret = T[j][0]
            while T[j + 1][0] == ".":
                ret = T[j + 2][0]
                j += 2
            j += 1
        while T[j][0] not in (";", "is"):
            j += 1
        s = Sub(lib, pkg, kind, name, params, ret, file, line)
        if T[j][0] == "is" and T[j + 1][0] != "new":
            # body up to the matching end
            k, depth = j + 1, 1
            while depth and k < len(T):
                t = T[k][0]
                if t == "end":
                    depth -= 1
                    while T[k][0] != ";":
                        k += 1
                elif t in ("if", "case", "loop", "record", "units", "protected", "block") and T[k - 1][0] != "end":
                    depth += 1
                elif t in ("function", "procedure") and T[k + 2][0] in ("(", "return", ";", "is"):
                    # nested declaration or body
                    m = k
                    par = 0
                    while not (par == 0 and T[m][0] in (";", "is")):
                        par += (T[m][0] == "(") - (T[m][0] == ")")
                        m += 1
                    if T[m][0] == "is":
                        depth += 1
                    k = m
                k += 1
            s.body = [x[0] for x in T[j + 1:k]]
            return s, k
        return s, j + 1


def bounds(d):
    txt = " ".join(d[1:]).split(" units")[0].rstrip("; ")
    m = re.match(r"^(.*?) (to|downto) (.*)$", txt)
    if not m:
        return None
    def val(x):
        x = x.replace(" ", "").replace("_", "")
        m = re.match(r"^(-?)(\d+)((?:[-+]\d+)*)$", x)
        if m:
            return int(m.group(1) + m.group(2)) + sum(int(y) for y in re.findall(r"[-+]\d+", m.group(3)))
        m = re.match(r"^16#([0-9a-f]+)#$", x)
        return int(m.group(1), 16) if m else None
    a, b = val(m.group(1)), val(m.group(3))
    if a is None or b is None:
        return None
    lo, hi = min(a, b), max(a, b)
    for w in (1, 2, 4, 8):
        if (lo >= 0 and hi < 1 << 8 * w) or (-(1 << 8 * w - 1) <= lo and hi < 1 << 8 * w - 1):
            return w
    return None


def param(cur, kind):
    if ":" not in cur:
        return []
    c = cur.index(":")
    left, right = cur[:c], cur[c + 1:]
    cls = left[0] if left[0] in ("signal", "variable", "constant", "file") else None
    names = [x for x in (left[1:] if cls else left) if x != ","]
    mode = "in"
    if right[0] in ("in", "out", "inout"):
        mode, right = right[0], right[1:]
    k = 0
    while k + 2 < len(right) and right[k + 1] == ".":
        k += 2
    ty = right[k]
    con = k + 1 < len(right) and right[k + 1] == "("
    return [(x, mode, ty, cls, con) for x in names]


def tokens(s):
    s = re.sub(r"(?m)^[ \t]*`[^\n]*$", "", s)      # conditional analysis directives: both branches are read
    out, line, pos = [], 1, 0
    for m in TOK.finditer(s):
        t = m.group(0)
        line += s.count("\n", pos, m.start())
        pos = m.start()
        if t.startswith("--") or t.startswith("/*") or t.isspace():
            continue
        low = t if t[0] == "'" else t.lower()
        out.append((low, line, t))
    return out + [(";", line, ";")] * 8
