"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique=None, note=None, na=None, **kw):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mechanism], **kw}}
    assert len(title) <= 80, title
    P.append((d, technique, note and " ".join(note.split()), na and " ".join(na.split())))


exec(open(os.path.join(ROOT, "tools", "proplist.py")).read())

P.sort(key=lambda x: x[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "All checks are static: setup builds nothing that is kept; every check compiles the clang-based "
                "fact extractor, re-extracts facts from /repo's working tree and decides its rules on them. "
                "The thorough command is the same analysis, since it is already exhaustive over the source."}
for d, t, n, na in P:
    if na:
        man["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        assert os.path.exists(os.path.join(ROOT, "engine", "checks", d["id"].lower() + ".py")), d["id"]
        man["checks"].append({"property": d["id"], "quick_cmd": "python3 check.py " + d["id"],
                              "thorough_cmd": "python3 check.py " + d["id"],
                              "technique": t, "level": "other", "level_note": n})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
