"""Check runner: evidence, known findings, verdicts."""
import json, os, sys, time, shutil, tempfile, traceback, importlib
import facts, core
from facts import AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.rules = {}        # rule -> dict(text, obligations, samples)
        self.viol = []         # (key, msg)
        self.notes = []
        self.assumptions = []
        self.counts = {}

    def rule(self, name, text):
        self.rules.setdefault(name, {"rule": text, "obligations": 0, "violated": 0, "samples": []})

    def ok(self, rule, site):
        r = self.rules[rule]
        r["obligations"] += 1
        if len(r["samples"]) < 4:
            r["samples"].append(site)

    def bad(self, rule, key, site, msg):
        """key: stable identification of the violating construct."""
        r = self.rules[rule]
        r["obligations"] += 1
        r["violated"] += 1
        if not any(k == rule + ":" + key and s == site for k, s, m in self.viol):
            self.viol.append((rule + ":" + key, site, msg))

    def check(self, rule, cond, key, site, msg):
        if cond:
            self.ok(rule, site)
        else:
            self.bad(rule, key, site, msg)

    def require(self, rule, minimum):
        n = self.rules[rule]["obligations"]
        if n < minimum:
            raise AnalysisError("rule %s of %s matched %d instances, at least %d were confirmed"
                                % (rule, self.pid, n, minimum))

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("property") == pid and d.get("status") == "known":
                out[d["key"]] = d["what"]
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks." + pid.lower())
    work = tempfile.mkdtemp(prefix="nvcx-")
    rep = Report(pid)
    try:
        files = facts.extract(work, getattr(mod, "WANT", None))
        prog = core.Program(files)
        prog.work = work
        mod.run(prog, rep)
    except AnalysisError as e:
        # A violation that was already established stands even when a later
        # rule cannot be evaluated.
        if not rep.viol:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e), file=sys.stderr)
            return 2
        rep.notes.append("a later rule could not be evaluated: %s" % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(pid)
    new, old = [], []
    for key, site, msg in rep.viol:
        (old if key in known else new).append((key, site, msg))

    obl = sum(r["obligations"] for r in rep.rules.values())
    bad = sum(r["violated"] for r in rep.rules.values())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.EXPLAIN.strip(),
            "translation_units": len(prog.tus),
            "functions_analysed": len(prog.fns),
            "obligations": obl, "discharged": obl - bad,
            "rules": rep.rules, **rep.counts,
        },
        "assumptions": list(getattr(mod, "ASSUME", [])) + rep.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if old:
        ev["coverage"]["known_findings"] = [{"key": k, "site": s, "what": m} for k, s, m in old]
    if rep.notes:
        ev["coverage"]["notes"] = rep.notes
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    for k, s, m in old:
        print("KNOWN-FINDING: property=%s %s %s (%s)" % (pid, s, m, k))
    if new:
        with open(replay, "w") as f:
            for k, s, m in new:
                f.write("%s: [%s] %s\n" % (s, k, m))
        ev["coverage"]["violation_list"] = [{"key": k, "site": s, "what": m} for k, s, m in new]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations over %d functions in %d translation units, %d violated, %.1fs"
          % (pid, obl, len(prog.fns), len(prog.tus), len(new), time.time() - t0))
    if new:
        for k, s, m in new[:40]:
            print("  %s: [%s] %s" % (s, k, m))
        print("VIOLATION property=%s replay=evidence/%s.violations.txt" % (pid, pid))
        return 1
    return 0
