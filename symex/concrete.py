"""Runs harnesses against the real code with the real torch/numpy/pandas.

usage: /opt/venv/bin/python concrete.py CHECK.py < request.json > result.json
request: {"jobs": [{"instance": name, "inputs": {...}}, ...]}"""
import sys
import os
import json
import math
import importlib.util
import traceback


class AssumeFailed(BaseException):
    pass


class ConcS:
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.fails = []
        self.obs = []
        self._undo = []
        self._nrng = 0
        self.checked = 0

    # inputs ---------------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        if name not in self.inputs:
            # an input the symbolic run never created: any admissible value
            self.inputs[name] = _mid(lo, hi)
        return float(self.inputs[name])

    def int(self, name, lo=None, hi=None):
        if name not in self.inputs:
            self.inputs[name] = int(_mid(lo, hi))
        return int(self.inputs[name])

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def cplx(self, name, lo=None, hi=None, ilo=None, ihi=None):
        return complex(self.real(name + ".re", lo, hi),
                       self.real(name + ".im", lo if ilo is None else ilo, hi if ihi is None else ihi))

    def choose(self, name, options):
        return options[int(self.inputs.get(name, 0))]

    def intval(self, name, lo, hi):
        return self.choose(name, list(range(lo, hi + 1)))

    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        if len(shape) == 0:
            return self.real(name, lo, hi)
        return [self.reals("%s_%d" % (name, i), shape[1:], lo, hi) for i in range(shape[0])]

    def cplxs(self, name, shape, lo=None, hi=None, ilo=None, ihi=None):
        if isinstance(shape, int):
            shape = (shape,)
        if len(shape) == 0:
            return self.cplx(name, lo, hi, ilo, ihi)
        return [self.cplxs("%s_%d" % (name, i), shape[1:], lo, hi, ilo, ihi) for i in range(shape[0])]

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    # logic ----------------------------------------------------------------
    def and_(self, *c): return all(bool(x) for x in c)
    def or_(self, *c): return any(bool(x) for x in c)
    def not_(self, c): return not bool(c)
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if bool(c) else b
    def max(self, *x): return max(self.scalar(i) for i in x)
    def min(self, *x): return min(self.scalar(i) for i in x)
    def sqrt(self, x): return math.sqrt(self.scalar(x))
    def exp(self, x): return math.exp(self.scalar(x))
    def sin(self, x): return math.sin(self.scalar(x))
    def cos(self, x): return math.cos(self.scalar(x))
    def log10(self, x): return math.log10(self.scalar(x))
    def pow10(self, x): return 10.0 ** self.scalar(x)
    def floor(self, x): return math.floor(self.scalar(x))
    def re(self, x): x = self.scalar(x); return x.real if isinstance(x, complex) else x
    def im(self, x): x = self.scalar(x); return x.imag if isinstance(x, complex) else 0.0
    def abs(self, x): return abs(self.scalar(x))
    def exact(self, v):
        return v

    def algebra(self, cap=0, exact=True):
        pass

    def ieee_nan(self):
        pass

    def branch(self, c): return bool(c)

    def scalar(self, x):
        if hasattr(x, "item"):
            return x.item()
        return x

    def shape(self, t): return tuple(t.shape)

    def elems(self, t):
        import torch
        import numpy as np
        if torch.is_tensor(t):
            return t.detach().reshape(-1).tolist()
        if isinstance(t, np.ndarray):
            return t.ravel().tolist()
        if isinstance(t, (list, tuple)):
            out = []
            for x in t:
                out += self.elems(x)
            return out
        if isinstance(t, np.generic):
            return [t.item()]
        return [t]

    # obligations ----------------------------------------------------------
    def _fail(self, msg):
        if len(self.fails) < 20:
            self.fails.append(msg)

    def prove(self, c, msg):
        self.checked += 1
        if not bool(c):
            self._fail(msg)

    def prove_close(self, a, b, msg, tol=1e-9, rel=None):
        A, B = self.elems(a), self.elems(b)
        if len(B) == 1 and len(A) != 1:
            B = B * len(A)
        self.checked += 1
        if len(A) != len(B):
            self._fail(msg + " (number of elements %d != %d)" % (len(A), len(B)))
            return
        for i, (x, y) in enumerate(zip(A, B)):
            x, y = complex(x), complex(y)
            for p, q in ((x.real, y.real), (x.imag, y.imag)):
                if p == q:
                    continue
                t = tol + (rel * abs(q) if rel else 0)
                if not abs(p - q) <= t:
                    self._fail("%s [element %d]: got %r, expected %r" % (msg, i, x, y))
                    break

    def prove_le(self, a, b, msg, tol=1e-9):
        self.checked += 1
        for x, y in self._pairs(a, b):
            if not x <= y + tol:
                self._fail("%s: %r > %r" % (msg, x, y))
                return

    def prove_eq(self, a, b, msg):
        self.checked += 1
        for x, y in self._pairs(a, b):
            if not x == y:
                self._fail("%s: %r != %r" % (msg, x, y))
                return

    def _pairs(self, a, b):
        A, B = self.elems(a), self.elems(b)
        if len(B) == 1 and len(A) != 1:
            B = B * len(A)
        if len(A) == 1 and len(B) != 1:
            A = A * len(B)
        if len(A) != len(B):
            self._fail("element count %d != %d" % (len(A), len(B)))
            return []
        return list(zip(A, B))

    def raises(self, fn, *exc):
        try:
            self.result = fn()
        except exc as e:
            return e
        return None

    # environment ----------------------------------------------------------
    def patch(self, obj, attr, value):
        miss = object()
        old = obj.__dict__.get(attr, miss) if hasattr(obj, "__dict__") else getattr(obj, attr)
        had = getattr(obj, attr, None)
        self._undo.append((obj, attr, old, miss))
        setattr(obj, attr, value)
        return had

    def cleanup(self):
        for obj, attr, old, miss in reversed(self._undo):
            if old is miss:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)

    def symbolic_rng(self):
        import torch
        S = self

        def val(lo, hi):
            i = S._nrng
            S._nrng += 1
            k = "rng%d" % i
            if k not in S.inputs:
                S.inputs[k] = (lo + hi) / 2
            return float(S.inputs[k])

        def shape(s):
            if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)):
                s = s[0]
            return tuple(int(x) for x in s)

        def mk(shp, f):
            n = 1
            for x in shp:
                n *= x
            return torch.tensor([f() for _ in range(n)], dtype=torch.float64).reshape(shp)

        def mkd(shp, f, dtype):
            dt = dtype or torch.get_default_dtype()
            if dt.is_complex:
                re = mk(shp, f)
                return torch.complex(re, mk(shp, f)).to(dt)
            return mk(shp, f).to(dt)

        def rand(*s, dtype=None, **k): return mkd(shape(s), lambda: val(0.0, 1.0), dtype)
        def randn(*s, dtype=None, **k): return mkd(shape(s), lambda: val(-6.0, 6.0), dtype)
        self.patch(torch, "rand", rand)
        self.patch(torch, "randn", randn)
        self.patch(torch, "rand_like", lambda t, **k: rand(*t.shape, dtype=t.dtype))
        self.patch(torch, "randn_like", lambda t, **k: randn(*t.shape, dtype=t.dtype))
        self.patch(torch, "normal", lambda mean=0.0, std=1.0, size=None, **k: randn(*(size if size is not None else torch.as_tensor(mean).shape)) * std + mean)
        self.patch(torch.Tensor, "uniform_", lambda t, a=0.0, b=1.0, **k: t.copy_(a + mk(tuple(t.shape), lambda: val(0.0, 1.0)) * (b - a)))
        self.patch(torch.Tensor, "normal_", lambda t, mean=0.0, std=1.0, **k: t.copy_(mean + std * mk(tuple(t.shape), lambda: val(-6.0, 6.0))))

        def reset(lin):
            with torch.no_grad():
                torch.Tensor.copy_(lin.weight, mk(tuple(lin.weight.shape), lambda: val(-1.0, 1.0)))
                if lin.bias is not None:
                    torch.Tensor.copy_(lin.bias, mk(tuple(lin.bias.shape), lambda: val(-1.0, 1.0)))
        self.patch(torch.nn.Linear, "reset_parameters", reset)

    def seeded_rng(self):
        """the real generators"""

    def gradient(self, fn, leaves, msg, tol=1e-6):
        """autograd's derivative against difference quotients"""
        import torch
        n0, kinds = self._nrng, []

        def once(grad):
            self._nrng = n0
            with torch.set_grad_enabled(grad):
                r = fn()
            r = list(r) if isinstance(r, (list, tuple)) else [r]
            out = []
            for t in r:
                t = torch.as_tensor(t)
                kinds.append(t.dtype)
                for p in ((torch.real(t), torch.imag(t)) if t.is_complex() else (t,)):
                    out.append(p.reshape(-1).to(torch.float64))
            return torch.cat(out)
        self.checked += 1
        for l in leaves:
            l.requires_grad_(True)
        o = once(True)
        w = torch.cos(1.0 + 1.7 * torch.arange(len(o), dtype=torch.float64))
        if o.requires_grad:
            g = torch.autograd.grad((w * o).sum(), list(leaves), allow_unused=True)
        else:
            g = [None] * len(leaves)
        f0 = float((w * o.detach()).sum())
        single = any(t in (torch.float32, torch.complex64) for t in kinds + [l.dtype for l in leaves])
        h, rel = (2e-2, 3e-2) if single else (1e-5, 1e-3)
        for i, (l, d) in enumerate(zip(leaves, g)):
            flat = l.data.reshape(-1)
            for k, unit in [(k, u) for k in range(flat.numel())[:24] for u in ((1.0, 1j) if flat.is_complex() else (1.0,))]:
                old, fd = flat[k].clone(), []
                for s in (h, -h):
                    flat[k] = old + s * unit
                    fd.append((float((w * once(False)).sum()) - f0) / s)
                flat[k] = old
                got = 0.0 if d is None else d.reshape(-1)[k].item()
                got = (got.imag if unit == 1j else got.real) if isinstance(got, complex) else got
                mean = (fd[0] + fd[1]) / 2
                if abs(fd[0] - fd[1]) > (0.1 if single else 1e-2) * (1e-3 + abs(mean)):
                    continue     # a kink of the function itself
                if not abs(got - mean) <= (1e-4 if single else 1e-6) + rel * max(abs(mean), 1e-2 * abs(f0)):
                    self._fail("%s: autograd says %r, the result changes by %r (tensor %d, element %d)" % (msg, got, mean, i, k))
                    return
        return o.detach().tolist()

    def seed_hook(self, fn):
        import torch
        import numpy
        import random
        self.patch(torch, "manual_seed", lambda s: fn("torch", s))
        self.patch(torch.random, "manual_seed", lambda s: fn("torch", s))
        self.patch(numpy.random, "seed", lambda s=None: fn("numpy", s))
        self.patch(random, "seed", lambda s=None: fn("random", s))

    def frame(self, cols):
        import pandas
        return pandas.DataFrame({k: list(v) for k, v in cols.items()})

    def number(self, text):
        import re
        return float(re.findall(r"[-+]?\d*\.\d+(?:e[-+]?\d+)?|[-+]?\d+(?:e[-+]?\d+)?", text)[-1])

    def observe(self, name, value):
        self.obs.append((name, self.elems(value)))

    def note(self, k, v=1):
        pass


def _mid(lo, hi):
    if lo is not None and hi is not None:
        return (lo + hi) / 2
    if lo is not None:
        return lo + 1
    if hi is not None:
        return hi - 1
    return 0.0


def load(path):
    sys.path.insert(0, os.path.dirname(os.path.abspath(path)))
    name = "harness_" + os.path.basename(path)[:-3]
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def jsonable(v):
    out = []
    for x in v:
        if isinstance(x, complex):
            out.append([x.real, x.imag])
        elif isinstance(x, (bool, str)) or x is None:
            out.append(x)
        else:
            try:
                out.append(float(x))
            except (TypeError, ValueError):
                out.append(str(x))
    return out


def main():
    import torch
    torch.set_num_threads(1)
    mod = load(sys.argv[1])
    req = json.load(sys.stdin)
    insts = {i["name"]: i for i in mod.instances("thorough")}
    insts.update({i["name"]: i for i in mod.instances("quick")})
    res = []
    real_out = sys.stdout
    sys.stdout = sys.stderr
    for j in req["jobs"]:
        inst = insts[j["instance"]]
        S = ConcS(dict(j["inputs"]))
        r = {"status": "ok"}
        try:
            torch.set_default_dtype(torch.float64)
            inst["fn"](S, **inst.get("args", {}))
        except AssumeFailed:
            r["status"] = "assume"
        except Exception as e:
            r["status"] = "exception"
            r["exception"] = type(e).__name__
            r["msg"] = str(e)[:500]
            r["trace"] = traceback.format_exc()[-3000:]
        finally:
            S.cleanup()
        r["fails"] = S.fails
        r["checked"] = S.checked
        r["obs"] = [(n, jsonable(v)) for n, v in S.obs]
        res.append(r)
    sys.stdout = real_out
    json.dump(res, sys.stdout)


if __name__ == "__main__":
    main()
