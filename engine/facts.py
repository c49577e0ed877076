"""Front-end driver: builds the extractor, generates the flex scanners and runs
the extractor over every translation unit of /repo's current working tree."""
import concurrent.futures as cf
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NVC_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis itself is broken (anchor gone, parse failure)."""


def build_extractor(work):
    out = os.path.join(work, "nvcx")
    src = os.path.join(HERE, "nvcx.cpp")
    cache = os.environ.get("NVCX_BIN")
    if cache and os.path.exists(cache) and os.path.getmtime(cache) > os.path.getmtime(src):
        return cache
    cmd = ["/usr/bin/clang++-18", "-O0", "-fno-rtti", "-std=c++17",
           "-I" + LLVM + "/include", src, "-o", out,
           "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("extractor does not build:\n" + r.stderr[-3000:])
    if cache:
        shutil.copy(out, cache)
    return out


def sources():
    """Every C source named by the build files under src/ (flex inputs too)."""
    srcs = set()
    for mk in [os.path.join(REPO, "src/Makemodule.am")] + \
            sorted(glob.glob(os.path.join(REPO, "src/*/Makemodule.am"))):
        txt = open(mk, errors="replace").read()
        for m in re.finditer(r"\b(src/[\w./-]+\.(?:c|l))\b", txt):
            if os.path.exists(os.path.join(REPO, m.group(1))):
                srcs.add(m.group(1))
    return sorted(srcs)


FLAGS = ["-DHAVE_CONFIG_H", "-I" + os.path.join(HERE, "config"), "-I" + REPO,
         "-I" + REPO + "/thirdparty", "-I" + REPO + "/src", "-mpopcnt",
         "-pthread", "-I/usr/include/capstone", "-I" + LLVM + "/include",
         "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
         "-D__STDC_LIMIT_MACROS", "-I/usr/include/tcl8.6", "-std=gnu11",
         "-resource-dir", LLVM + "/lib/clang/18"]


def _one(args):
    nvcx, src, path, out, extra = args
    r = subprocess.run([nvcx, REPO, out, path] + FLAGS + extra,
                       capture_output=True, text=True)
    ok = r.returncode == 0
    if ok:
        with open(out, "rb") as f:
            f.seek(max(0, os.path.getsize(out) - 64))
            ok = f.read().endswith(b'{"k":"end"}\n')
    return src, ok, r.stderr


def extract(work, want=None, extra=()):
    """Extract the TUs whose path matches one of the `want` globs (all if
    None).  Returns {source: jsonl path}."""
    import fnmatch
    nvcx = build_extractor(work)
    gen = os.path.join(work, "gen")
    out = os.path.join(work, "facts")
    os.makedirs(gen, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    jobs = []
    for s in sources():
        if want is not None and not any(fnmatch.fnmatch(s, w) for w in want):
            continue
        path = os.path.join(REPO, s)
        if s.endswith(".l"):
            c = os.path.join(gen, os.path.basename(s)[:-2] + ".c")
            r = subprocess.run(["flex", "-o", c, path], capture_output=True, text=True)
            if r.returncode != 0:
                raise AnalysisError("flex failed on %s: %s" % (s, r.stderr))
            path = c
        jobs.append((nvcx, s, path, os.path.join(out, s.replace("/", "__") + ".jsonl"), list(extra)))
    if not jobs:
        raise AnalysisError("no translation unit matches %r" % (want,))
    jobs.sort(key=lambda j: -os.path.getsize(os.path.join(REPO, j[1])))
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for src, ok, err in ex.map(_one, jobs):
            if not ok:
                raise AnalysisError("cannot parse %s:\n%s" % (src, err[-2000:]))
    for j in jobs:
        res[j[1]] = j[3]
    return res
