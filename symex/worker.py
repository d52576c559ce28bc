"""Decide one harness instance.  usage: python3-vt -m symex.worker CHECK.py INSTANCE TIER SEED OUT.json"""
import sys
import os
import json
import time
import random
import subprocess
import traceback

sys.setrecursionlimit(20000)
from . import loader
loader.install()
from . import expr as E
from . import solver as Z
from . import engine
from . import api
from . import values as V

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

DEFAULTS = dict(query_timeout=30.0, branch_timeout=4.0, time_limit=500.0, max_paths=5000,
                max_concretize=64, max_candidates=3, max_total_candidates=8, validate=3)


def concrete(check, jobs, timeout=300):
    if not jobs:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TORCH_DEVICE="cpu",
               OMP_NUM_THREADS="1", PYTHONPATH=loader.REPO + os.pathsep + HERE, PYTHONWARNINGS="ignore")
    p = subprocess.run([PY, os.path.join(HERE, "concrete.py"), check], input=json.dumps({"jobs": jobs}),
                       capture_output=True, text=True, env=env, timeout=timeout, cwd=os.environ.get("SYMEX_TMP", "/tmp"))
    if p.returncode != 0:
        raise RuntimeError("concrete replay process failed: " + p.stderr[-3000:])
    return json.loads(p.stdout)


def evalobs(obs, env):
    roots = []
    for _, vs in obs:
        for v in vs:
            for q in (V.cre(v), V.cim(v)):
                if V.is_sym(q):
                    roots.append(q.node)
    val = E.evaluate(roots, env, exact=False)

    def ev(q):
        return val[q.node.id] if V.is_sym(q) else q
    out = []
    for n, vs in obs:
        l = []
        for v in vs:
            if isinstance(v, (V.SCplx, complex)):
                l.append([float(ev(V.cre(v))), float(ev(V.cim(v)))])
            elif isinstance(v, (str, bool)) or v is None:
                l.append(v)
            else:
                try:
                    l.append(float(ev(v)))
                except (TypeError, ValueError):
                    l.append(str(v))
        out.append((n, l))
    return out


def differ(a, b):
    if isinstance(a, list) != isinstance(b, list):
        a = a if isinstance(a, list) else [a, 0.0]
        b = b if isinstance(b, list) else [b, 0.0]
    if isinstance(a, list):
        return any(differ(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return False
    a, b = float(a), float(b)
    if a == b:
        return False
    return not abs(a - b) <= 1e-7 + 1e-5 * max(abs(a), abs(b))


def bad(res):
    """what a concrete run of the harness shows to be wrong, or None"""
    if res["status"] == "assume":
        return None
    if res["fails"]:
        return res["fails"][0]
    if res["status"] == "exception":
        return "unexpected %s: %s" % (res["exception"], res["msg"][:300])
    return None


def judge(v, r):
    """compare a real run with the encoding's prediction at the same inputs.
    -> ('violation', msg) | ('mismatch', msg) | ('ok', None) | ('skip', None)"""
    env, obs, how = v
    b = bad(r)
    if b:
        return "violation", b
    if r["status"] != "ok":
        return "skip", None
    if obs is None:
        return "ok", None
    if len(obs) != len(r["obs"]):
        return "mismatch", "number of observations %d vs %d" % (len(obs), len(r["obs"]))
    for (n1, a), (n2, b2) in zip(obs, r["obs"]):
        if n1 != n2 or len(a) != len(b2) or any(differ(x, y) for x, y in zip(a, b2)):
            return "mismatch", "%s: encoding %s, real %s" % (n1, str(a)[:300], str(b2)[:300])
    return "ok", None


def random_point(ctx, rng, tries=60):
    pc = ctx.tests()
    for _ in range(tries):
        env = api.random_inputs(ctx.inputs, rng)
        try:
            val = E.evaluate(pc, env, exact=False) if pc else {}
        except (E.EvalError, ZeroDivisionError, OverflowError, KeyError):
            continue
        if all(val[c.id] for c in pc):
            return env
    return None


def decide(check, inst, tier, seed):
    t0 = time.time()
    opts = dict(DEFAULTS)
    opts.update(inst.get("opts", {}))
    rng = random.Random(seed * 7919 + hash_name(inst["name"]))
    run = api.Run(opts)
    ex = engine.Explorer(max_paths=opts["max_paths"], time_limit=opts["time_limit"],
                         query_timeout=opts["query_timeout"], branch_timeout=opts["branch_timeout"],
                         max_concretize=opts["max_concretize"])
    fn, args = inst["fn"], inst.get("args", {})
    cell = {}
    outcomes = {"ok": 0, "exception": 0, "nonfinite": 0, "unsupported": 0, "stop": 0}
    witnesses = 0

    def go(ctx):
        S = api.SymS(ctx, run)
        cell["S"] = S
        cell["exc"] = None
        try:
            fn(S, **args)
        except Exception as e:
            cell["exc"] = traceback.format_exc()[-2500:]
            raise
        finally:
            S.cleanup()

    def model_inputs(ctx, S):
        r, m = Z.check(list(ctx.pc), timeout=opts["query_timeout"], want_model=True, kind="feasibility")
        if r == "unsat":
            return None, r
        return S.inputs_from(m or {}), r

    def on_path(ctx, outcome):
        nonlocal witnesses
        S = cell["S"]
        kind, val = outcome
        outcomes[kind] = outcomes.get(kind, 0) + 1
        if kind == "ok":
            run.paths_ok += 1
            S.crosscheck()
            if len(run.validations) < opts["validate"] or witnesses == 0:
                env = random_point(ctx, rng)
                how = "random"
                if env is None:
                    env, r = model_inputs(ctx, S)
                    how = "model"
                    if env is None:
                        return False
                    if r != "sat":
                        env = None
                if env is not None:
                    witnesses += 1
                    env = dict(env)
                    obs = None
                    try:
                        obs = evalobs(S._obs, env) if how == "random" else None
                    except (E.EvalError, ZeroDivisionError, OverflowError, KeyError):
                        obs = None
                    env.update(ctx.choices)
                    if len(run.validations) < opts["validate"]:
                        run.validations.append((env, obs, how))
        elif kind in ("exception", "nonfinite", "unsupported"):
            env = random_point(ctx, rng)
            if env is not None:
                env = dict(env)
                env.update(ctx.choices)
            else:
                env, r = model_inputs(ctx, S)
                if env is None:
                    return False
            if kind == "exception":
                c = api.Candidate("unexpected %s: %s" % (type(val).__name__, str(val)[:200]), env, "exception", (list(ctx.pc), E.TRUE))
                c.trace = cell["exc"]
            else:
                c = api.Candidate("%s: %s" % (kind, val), env, kind, (list(ctx.pc), E.TRUE))
            c.vars = dict(ctx.inputs)
            c.choices = dict(ctx.choices)
            if kind == "unsupported":
                if len(run.undecided) < 20:
                    run.undecided.append("not encodable: %s" % (val,))
                    run.notes.setdefault("trace", cell["exc"])
            n = sum(1 for q in run.candidates if q.kind == kind)
            if n < opts["max_candidates"]:
                run.candidates.append(c)
        return len([c for c in run.candidates if c.kind in ("assert", "exception")]) >= opts["max_total_candidates"]

    try:
        ex.run(go, on_path)
    except engine.BudgetExceeded as e:
        run.undecided.append("budget: %s" % e)

    # ---- replay counterexample candidates on the real code
    violations, spurious = [], []
    jobs = [{"instance": inst["name"], "inputs": c.inputs} for c in run.candidates]
    nv = len(jobs)
    t1 = time.time()
    results = concrete(check, jobs)
    replay_s = time.time() - t1

    again = []
    for c, r in zip(run.candidates, results[:nv]):
        b = bad(r)
        if b:
            violations.append({"msg": b, "inputs": c.inputs, "found": c.kind, "trace": r.get("trace")})
        elif c.kind in ("assert", "unknown", "exception"):
            again.append(c)
    if not violations and again:
        jobs, owner = [], []
        for c in again:
            k = 0
            for env in api.search_point(c, 10.0, rng):
                jobs.append({"instance": inst["name"], "inputs": env})
                owner.append(c)
                k += 1
                if k >= 5:
                    break
        res2 = concrete(check, jobs) if jobs else []
        hit = set()
        for j, c, r in zip(jobs, owner, res2):
            b = bad(r)
            if b:
                violations.append({"msg": b, "inputs": j["inputs"], "found": "search", "trace": r.get("trace")})
                hit.add(id(c))
        if not violations:
            for c in again:
                spurious.append({"msg": c.msg, "kind": c.kind, "inputs": c.inputs, "trace": getattr(c, "trace", None)})
    for s in spurious:
        run.undecided.append("%s: %s (not reproduced on the real code)" % (s["kind"], s["msg"]))
    if run.paths_ok == 0 and not violations and not run.undecided:
        run.undecided.append("vacuous: no path reached the end of the harness")
    if run.paths_ok and witnesses == 0 and not violations:
        run.undecided.append("vacuous: no admissible input found for any completed path")
    if run.obligations == 0 and not violations and not run.undecided:
        run.undecided.append("vacuous: no obligations")
    return {
        "instance": inst["name"], "desc": inst.get("desc", ""), "bounds": inst.get("bounds", ""),
        "violations": violations, "undecided": run.undecided, "spurious": spurious,
        "validations": run.validations if not violations else [],
        "paths": ex.paths, "infeasible": ex.infeasible, "decisions": ex.decisions, "outcomes": outcomes,
        "obligations": run.obligations, "syntactic": run.syntactic, "discharged": run.discharged,
        "solver": dict(Z.STATS), "witnesses": witnesses,
        "functions": sorted(loader.FUNCS), "nodes": E.count() if hasattr(E, "count") else 0,
        "notes": run.notes, "wall_s": time.time() - t0, "replay_s": replay_s,
        "samples": [env for env, _, _ in run.validations[:2]],
    }


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode())


def main():
    check, name, tier, seed, out = sys.argv[1:6]
    try:
        mod = loader.load_harness(check)
        inst = [i for i in mod.instances(tier) if i["name"] == name][0]
        loader.FUNCS.clear()
        sys.monitoring.restart_events()
        r = decide(check, inst, tier, int(seed))
    except BaseException as e:
        r = {"instance": name, "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-4000:]}
    with open(out, "w") as f:
        json.dump(r, f)


if __name__ == "__main__":
    main()
