"""Decide one property: runs all harness instances of checks/<ID>.py in
parallel worker processes and writes evidence/<ID>.json.

usage: python3-vt -m symex.run ID [--tier quick|thorough] [--only SUBSTR] [-v]"""
import sys
import os
import re
import json
import time
import shutil
import tempfile
import argparse
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def is_known(known, inst, v):
    return next((k for k in known if k["instance"] == inst and re.search(k["match"], v["msg"])), None)


def list_instances(check, tier):
    code = ("import sys,json;sys.path.insert(0,%r)\n"
            "from symex import loader;loader.install(False)\n"
            "m=loader.load_harness(%r)\n"
            "print(json.dumps([{'name':i['name'],'cost':i.get('cost',1)} for i in m.instances(%r)]))" % (ROOT, check, tier))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, env=ENV)
    if p.returncode != 0:
        raise RuntimeError("loading the code under test failed:\n" + p.stderr[-3000:])
    return json.loads(p.stdout.strip().split("\n")[-1])

EVID = os.environ.get("SYMEX_EVIDENCE") or os.path.join(ROOT, "evidence")

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
           PYTHONPATH=ROOT, PYTHONWARNINGS="ignore", TORCH_DEVICE="cpu")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 840.0 if a.tier == "quick" else 7200.0
    check = os.path.join(ROOT, "checks", a.id + ".py")
    tmp = tempfile.mkdtemp(prefix="symex_")
    ENV["SYMEX_TMP"] = tmp
    ENV["MPLCONFIGDIR"] = tmp
    try:
        return _run(a, seed, t0, budget, check, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(a, seed, t0, budget, check, tmp):
    insts = list_instances(check, a.tier)
    if a.only:
        insts = [i for i in insts if a.only in i["name"]]
    order = sorted(insts, key=lambda i: -i["cost"])
    queue = list(order)
    running = {}
    results = {}
    known = [k for k in known_findings() if k["property"] == a.id]
    stop_at = None      # after a first new violation the rest gets little more time
    while queue or running:
        if stop_at is not None and time.time() > stop_at:
            for i in queue:
                results[i["name"]] = {"instance": i["name"], "error": "not run after a violation was found"}
            queue = []
        while queue and len(running) < a.jobs:
            i = queue.pop(0)
            out = os.path.join(tmp, "r_%d.json" % len(results) + "_%s.json" % re.sub(r"\W", "_", i["name"]))
            p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "symex.worker", check, i["name"], a.tier, str(seed), out],
                                 cwd=ROOT, env=ENV, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), start_new_session=True)
            running[i["name"]] = (p, out, time.time())
        time.sleep(0.05)
        for n, (p, out, ts) in list(running.items()):
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > budget or (stop_at is not None and time.time() > stop_at):
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    results[n] = {"instance": n, "error": "out of time", "timeout": True}
                    del running[n]
                continue
            try:
                results[n] = json.load(open(out))
            except (OSError, ValueError):
                results[n] = {"instance": n, "error": "worker died rc=%s: %s" % (rc, open(out + ".err").read()[-1500:])}
            del running[n]
            if stop_at is None and any(not is_known(known, n, v) for v in results[n].get("violations", [])):
                stop_at = time.time() + (25 if a.tier == "quick" else 120)
            if a.v:
                r = results[n]
                print("  %-40s %6.1fs paths=%s obl=%s synt=%s disch=%s viol=%d und=%s %s" % (
                    n, r.get("wall_s", 0), r.get("paths"), r.get("obligations"), r.get("syntactic"), r.get("discharged"),
                    len(r.get("violations", [])), r.get("undecided"), r.get("error", "")), flush=True)
    res = [results[i["name"]] for i in insts]
    validate(check, res, max(60.0, budget - (time.time() - t0)))
    return report(a, seed, t0, res)


def validate(check, res, timeout):
    """one admissible input per explored harness (and a few more) is run on the
    real code; the real results must equal the encoding's prediction"""
    from concurrent.futures import ThreadPoolExecutor
    from symex.worker import concrete, judge
    os.environ.update({k: ENV[k] for k in ("SYMEX_TMP", "MPLCONFIGDIR")})
    good = [r for r in res if not r.get("error")]
    todo = [(r, v) for r in good for v in r.get("validations", [])]
    for r in good:
        r["validated"] = 0
    if not todo:
        return
    k = min(4, max(1, len(todo) // 12))
    chunks = [todo[i::k] for i in range(k)]

    def one(ch):
        try:
            return concrete(check, [{"instance": r["instance"], "inputs": v[0]} for r, v in ch], timeout)
        except (RuntimeError, subprocess.TimeoutExpired, ValueError) as e:
            return e
    with ThreadPoolExecutor(k) as ex:
        outs = list(ex.map(one, chunks))
    for ch, out in zip(chunks, outs):
        if isinstance(out, Exception):
            for r in {id(r): r for r, _ in ch}.values():
                r["undecided"].append("validation run failed: %s" % str(out)[-500:])
            continue
        for (r, v), q in zip(ch, out):
            kind, msg = judge(v, q)
            if kind == "violation":
                r["violations"].append({"msg": msg, "inputs": v[0], "found": "witness", "trace": q.get("trace")})
            elif kind == "mismatch":
                r["undecided"].append("translation mismatch: " + msg)
            elif kind == "ok":
                r["validated"] += 1


def report(a, seed, t0, res):
    known = [k for k in known_findings() if k["property"] == a.id]
    violations, seen_known = [], {}
    undecided = []
    for r in res:
        if r.get("error"):
            undecided.append((r["instance"], r["error"]))
            continue
        for u in r["undecided"]:
            undecided.append((r["instance"], u))
        for v in r["violations"]:
            k = is_known(known, r["instance"], v)
            if k:
                seen_known[k["what"]] = k
            else:
                violations.append((r["instance"], v))
    good = [r for r in res if not r.get("error")]
    decided = [r for r in good if not r["undecided"] and not r["violations"]]
    code = 0
    for w in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.id, w))
    if violations:
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        inst, v = violations[0]
        path = os.path.join(d, "%s-%s.json" % (a.id, re.sub(r"\W", "_", inst)))
        json.dump({"property": a.id, "instance": inst, "inputs": v["inputs"], "message": v["msg"], "found_by": v["found"], "trace": v.get("trace"),
                   "replay": "python3-vt -m symex.replay %s   (cwd /verif)" % path}, open(path, "w"), indent=1)
        for inst, v in violations[:5]:
            print("  %s: %s" % (inst, v["msg"]))
            print("    inputs: %s" % json.dumps(v["inputs"])[:600])
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        code = 1
    elif undecided:
        for i, u in undecided[:12]:
            print("UNDECIDED property=%s instance=%s: %s" % (a.id, i, u))
        # held on everything explored, if anything was
        if not decided:
            code = 2
    solver = {}
    for r in good:
        for k, v in r["solver"].items():
            solver[k] = solver.get(k, 0) + v
    funcs = sorted({f for r in good for f in r["functions"]})
    tot = lambda k: sum(r.get(k, 0) for r in good)
    ev = {
        "property": a.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real source in /repo, regenerated on this run; every obligation "
                           "is decided by z3 over all values of the symbolic inputs within the listed bounds.",
            "instances": [{"name": r["instance"], "bounds": r.get("bounds", ""), "description": r.get("desc", ""),
                           "paths": r.get("paths"), "infeasible_paths": r.get("infeasible"), "outcomes": r.get("outcomes"),
                           "obligations": r.get("obligations"), "closed_by_normalisation": r.get("syntactic"),
                           "closed_by_solver": r.get("discharged"),
                           "queries": r.get("solver", {}).get("queries"), "feasibility_queries": r.get("solver", {}).get("feasibility"),
                           "solver_s": round(r.get("solver", {}).get("time", 0), 2),
                           "validated_points": r.get("validated"), "wall_s": round(r.get("wall_s", 0), 2),
                           "undecided": r.get("undecided") or ([r["error"]] if r.get("error") else [])} for r in res],
            "functions_encoded": funcs,
            "paths": tot("paths"), "obligations": tot("obligations"), "discharged": tot("discharged") + tot("syntactic"),
            "queries_discharged": solver.get("unsat", 0), "queries": solver.get("queries", 0),
            "solver_s": round(solver.get("time", 0), 2),
            "translator_validation_points": tot("validated"),
            "decided_instances": len(decided), "total_instances": len(res),
            "undecided": ["%s: %s" % x for x in undecided][:20],
            "known_findings": list(seen_known),
            "samples": [{"instance": r["instance"], "inputs": s} for r in good for s in r.get("samples", [])[:1]][:8],
        },
        "wall_s": round(time.time() - t0, 2),
        "verdict": {0: "holds", 1: "violated", 2: "undecided"}[code],
    }
    if a.only is None:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %s  instances %d/%d decided, paths %d, obligations %d, queries %d, solver %.1fs, wall %.1fs" % (
        a.id, ev["verdict"], len(decided), len(res), ev["coverage"]["paths"], ev["coverage"]["obligations"],
        ev["coverage"]["queries"], ev["coverage"]["solver_s"], ev["wall_s"]))
    return code


if __name__ == "__main__":
    sys.exit(main())
