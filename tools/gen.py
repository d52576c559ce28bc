"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append((id, {"id": id, "title": title, "statement": statement,
                   "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, note))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

NOTE = ("Bounded: holds for every value of the symbolic inputs within the bounds listed per instance in the evidence file. "
        "Real arithmetic instead of floating point (obligations carry a tolerance); numpy/torch operations are modelled and the model is "
        "compared with the real libraries on concrete points in every run. ")
checks = []
for id, p, note in P:
    if note is None:
        continue
    checks.append({"property": id, "quick_cmd": "./check.sh %s quick" % id, "thorough_cmd": "./check.sh %s thorough" % id,
                   "evidence_file": "evidence/%s.json" % id,
                   "technique": "solver-based checking: symbolic execution of the real Python source, z3 decides every obligation",
                   "level": "other", "level_note": NOTE + note})
na = [{"property": id, "reason": NA[id]} for id, p, note in P if note is None]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for id, p, note in P:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. check.sh ID quick|thorough runs symex.run; see DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
