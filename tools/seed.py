"""seed.py make            regenerate /verif/seeded from tools/seeds*.py against /repo's HEAD
   seed.py test ID... [--tests] [--check]   confirm in scratch copies: demo, repository tests, own check"""
import sys, os, subprocess, shutil, json, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds*.py"))):
    exec(open(f).read())
PRE = "import warnings\nwarnings.filterwarnings('ignore')\nimport numpy as np\nimport torch\nimport nidn\nfrom loguru import logger\nlogger.remove()\n"
SH = '''#!/bin/bash
# run in the repository root
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TORCH_DEVICE=cpu OMP_NUM_THREADS=1
export MPLCONFIGDIR="$(mktemp -d)"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"
'''


def make(id):
    s = SEEDS[id]
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seedmk_")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (tmp, tmp), shell=True, check=True)
    for fn, old, new in s["edits"]:
        p = os.path.join(tmp, fn)
        t = open(p).read()
        assert t.count(old) == 1, (id, fn, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(tmp)


def test(id, tests, check):
    tmp = tempfile.mkdtemp(prefix="seedtest_")
    out = []
    try:
        r = os.path.join(tmp, "repo")
        shutil.copytree("/repo", r)
        d = os.path.join(tmp, "d")
        os.makedirs(d)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(SEEDED, id, f), d)
        clean = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        if clean.returncode:
            out.append("DEMO FAILS ON CLEAN: " + clean.stderr[-1500:])
        subprocess.run(["git", "-C", r, "apply", os.path.join(SEEDED, id, "patch.diff")], check=True)
        bug = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
        out.append("demo %s (%s)" % ("ok" if bug.returncode else "DOES NOT FAIL", (bug.stderr.strip().split("\n") or [""])[-1][:150]))
        if tests:
            e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TORCH_DEVICE="cpu", OMP_NUM_THREADS="1", MPLCONFIGDIR=tmp)
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=900", "-x"], cwd=r, env=e, capture_output=True, text=True)
            out.append("tests: " + p.stdout.strip().split("\n")[-1] + ("" if p.returncode == 0 else "  TESTS FAIL " + p.stdout[-600:]))
        if check:
            p = subprocess.run(["./check.sh", SEEDS[id]["prop"], "quick"], cwd=ROOT, env=dict(os.environ, NIDN_REPO=r), capture_output=True, text=True)
            out.append("check rc=%d %s" % (p.returncode, "CAUGHT" if p.returncode == 1 and "VIOLATION property=" + SEEDS[id]["prop"] in p.stdout else "MISSED"))
            out.append(p.stdout[-700:])
    finally:
        shutil.rmtree(tmp)
    return "== %s [%s]\n   %s" % (id, SEEDS[id]["prop"], "\n   ".join(out))


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for id in sys.argv[2:] or SEEDS:
            make(id)
        for f in os.listdir(SEEDED):
            if f not in SEEDS:
                print("stale:", f)
    else:
        ids = [x for x in sys.argv[2:] if not x.startswith("--")] or list(SEEDS)
        with ThreadPoolExecutor(7 if "--tests" in sys.argv else 1) as ex:
            for r in ex.map(lambda i: test(i, "--tests" in sys.argv, "--check" in sys.argv), ids):
                print(r, flush=True)
