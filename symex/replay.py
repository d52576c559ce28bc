"""Re-run a recorded counterexample on the real code. usage: python3-vt -m symex.replay FILE"""
import sys
import os
import json
import subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", TORCH_DEVICE="cpu", PYTHONPATH="/repo")
p = subprocess.run(["/opt/venv/bin/python", os.path.join(ROOT, "symex", "concrete.py"), os.path.join(ROOT, "checks", r["property"] + ".py")],
                   input=json.dumps({"jobs": [{"instance": r["instance"], "inputs": r["inputs"]}]}), capture_output=True, text=True, env=env)
print(p.stderr[-2000:] if p.returncode else json.dumps(json.loads(p.stdout), indent=1))
sys.exit(0)
