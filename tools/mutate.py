"""Survey: random small mutations of one file, run the given checks on a copy.
usage: mutate.py FILE CHECKS N [SEED] [JOBS]   (CHECKS comma separated; FILE relative to /repo)
Prints survivors as diffs.  Development aid only; no check uses it."""
import ast, copy, os, random, shutil, subprocess, sys, difflib
REPO = "/repo"


def sites(tree):
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
            for o in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div]}.get(type(n.op), []):
                out.append((n, "op", o()))
        if isinstance(n, ast.AugAssign):
            for o in {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div]}.get(type(n.op), []):
                out.append((n, "op", o()))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((n, "op", ast.UAdd() if isinstance(n.op, ast.USub) else None))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}.get(type(n.ops[0]), []):
                out.append((n, "ops", [o()]))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            for v in {n.value + 1, n.value - 1, n.value * 1.01 if isinstance(n.value, float) else n.value + 1}:
                if v != n.value:
                    out.append((n, "value", v))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((n, "value", not n.value))
        if isinstance(n, ast.BoolOp):
            out.append((n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
        if isinstance(n, (ast.If, ast.While)):
            out.append((n, "test", ast.UnaryOp(ast.Not(), n.test)))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) > 1:
            e = list(n.slice.elts)
            i = random.randrange(len(e) - 1)
            e[i], e[i + 1] = e[i + 1], e[i]
            out.append((n.slice, "elts", e))
        if isinstance(n, ast.Call) and len(n.args) > 1:
            e = list(n.args)
            i = random.randrange(len(e) - 1)
            e[i], e[i + 1] = e[i + 1], e[i]
            out.append((n, "args", e))
        if isinstance(n, ast.Attribute) and n.attr in ("real", "imag", "Nx", "Ny", "Nz", "x", "y", "z"):
            alt = {"real": "imag", "imag": "real", "Nx": "Ny", "Ny": "Nx", "Nz": "Nx", "x": "y", "y": "z", "z": "x"}[n.attr]
            out.append((n, "attr", alt))
        if hasattr(n, "body") and isinstance(n.body, list):
            for i, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) and len(n.body) > 1 and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    if isinstance(s, ast.Expr) and "logger" in ast.unparse(s):
                        continue
                    out.append((n, "body", n.body[:i] + n.body[i + 1:]))
    return out


def main():
    f, checks, N = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    jobs = sys.argv[5] if len(sys.argv) > 5 else "4"
    src = open(os.path.join(REPO, f)).read()
    base = ast.unparse(ast.parse(src))
    random.seed(seed)
    tree = ast.parse(src)
    for n in ast.walk(tree):      # no docstrings, no logging
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and len(n.body) > 1:
            n.body = n.body[1:]
    base = ast.unparse(tree)
    all_ = sites(tree)
    pick = random.sample(range(len(all_)), min(N, len(all_)))
    work = "/tmp/mut_%d" % os.getpid()
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree(REPO, work, ignore=shutil.ignore_patterns(".git", "notebooks", "docs"))
    killed = 0
    try:
        for k in pick:
            n, attr, v = all_[k]
            old = getattr(n, attr)
            if v is None:
                continue
            setattr(n, attr, v)
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
            except Exception:
                setattr(n, attr, old)
                continue
            setattr(n, attr, old)
            d = [l for l in difflib.unified_diff(base.splitlines(), text.splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
            if not d or any("raise" in l or "logger" in l for l in d):
                continue
            open(os.path.join(work, f), "w").write(text)
            res = []
            for c in checks:
                try:
                    p = subprocess.run(["/verif/check.sh", c, "quick", "--jobs", jobs], env=dict(os.environ, NIDN_REPO=work, SYMEX_EVIDENCE=work + "_ev"), capture_output=True, text=True, timeout=900)
                    res.append(p.returncode)
                except subprocess.TimeoutExpired:
                    res.append("timeout")
                if res[-1] == 1:
                    break
            if res and res[-1] == 1:
                killed += 1
            else:
                print("SURVIVOR", f, res, " || ".join(d)[:400], flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("%s: %d sites, %d tried, %d killed" % (f, len(all_), len(pick), killed), flush=True)


main()
