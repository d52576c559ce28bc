"""The symbolic side of the harness API.

A harness is a function h(S, **params).  In this (symbolic) mode S.real/int/
bool introduce universally quantified inputs, the code under test runs on them,
and every S.prove... becomes a solver query `path condition and not(goal)`.
The same harness runs unchanged in concrete.py against the real libraries to
replay counterexamples and to validate the translation."""
import time
import types
import random
import numpy as np
from fractions import Fraction
from . import expr as E
from . import solver as Z
from . import engine
from . import values as V
from .values import Sym, SBool, SCplx, is_sym
from . import rational
from .engine import Unsupported, NonFinite, StopPath, slice_cached, Z_vars


class Candidate:
    def __init__(self, msg, inputs, kind, goal=None):
        self.msg = msg
        self.inputs = inputs
        self.kind = kind
        self.goal = goal     # (pc, neg) for further search


class Run:
    """statistics and findings of one harness instance"""
    def __init__(self, opts):
        self.opts = opts
        self.obligations = 0
        self.syntactic = 0
        self.discharged = 0
        self.candidates = []
        self.undecided = []
        self.paths_ok = 0
        self.validations = []   # (inputs, {name: value})
        self.samples = []
        self.notes = {}


class Given:
    def __init__(self, env):
        self.env = env


class _Point:
    def __init__(self, env):
        self.env = env


class SymS:
    symbolic = True

    def __init__(self, ctx, run):
        self.ctx = ctx
        self.run = run
        self._undo = []
        self._obs = []
        self._closed = []
        self._algebra = 0
        self._nrng = 0
        self.tol_factor = 2

    # ------------------------------------------------------------ inputs
    def exact(self, v):
        """a constant that arithmetic keeps exact"""
        if isinstance(v, complex):
            return SCplx(self.exact(v.real), self.exact(v.imag))
        return Sym(E.const(v))

    def real(self, name, lo=None, hi=None):
        n = E.var(name, "R", lo, hi)
        self.ctx.inputs[name] = n
        return Sym(n)

    def int(self, name, lo=None, hi=None):
        n = E.var(name, "I", lo, hi)
        self.ctx.inputs[name] = n
        return Sym(n)

    def bool(self, name):
        n = E.var(name, "B")
        self.ctx.inputs[name] = n
        return SBool(n)

    def cplx(self, name, lo=None, hi=None, ilo=None, ihi=None):
        return SCplx(self.real(name + ".re", lo, hi), self.real(name + ".im", lo if ilo is None else ilo, hi if ihi is None else ihi))

    def choose(self, name, options):
        o = self.ctx.choose(list(range(len(options))))
        self.ctx.choices[name] = o
        return options[o]

    def intval(self, name, lo, hi):
        """integer input, case-split to a python int"""
        return int(self.choose(name, list(range(lo, hi + 1))))

    def reals(self, name, shape, lo=None, hi=None):
        """nested list of real inputs"""
        if isinstance(shape, int):
            shape = (shape,)
        if len(shape) == 0:
            return self.real(name, lo, hi)
        return [self.reals("%s_%d" % (name, i), shape[1:], lo, hi) for i in range(shape[0])]

    def cplxs(self, name, shape, lo=None, hi=None, ilo=None, ihi=None):
        if isinstance(shape, int):
            shape = (shape,)
        if len(shape) == 0:
            return self.cplx(name, lo, hi, ilo, ihi)
        return [self.cplxs("%s_%d" % (name, i), shape[1:], lo, hi, ilo, ihi) for i in range(shape[0])]

    def assume(self, cond):
        n = self._b(cond)
        if n is E.FALSE:
            raise engine.Infeasible()
        self.ctx.assume(n)

    # ------------------------------------------------------------ logic
    def _b(self, c):
        if hasattr(c, "_scalar_value"):
            c = c._scalar_value()
        if isinstance(c, np.ndarray):
            c = c.reshape(-1)[0]
        return V.bnode(c)

    def _n(self, x):
        return E.toreal(V.node(self.scalar(x)))

    def scalar(self, x):
        if hasattr(x, "_scalar_value"):
            return x._scalar_value()
        if isinstance(x, np.ndarray):
            return x.reshape(-1)[0]
        return x

    def and_(self, *cs): return V.wrap(E.and_(*[self._b(c) for c in cs]))
    def or_(self, *cs): return V.wrap(E.or_(*[self._b(c) for c in cs]))
    def not_(self, c): return V.wrap(E.not_(self._b(c)))
    def implies(self, a, b): return V.wrap(E.or_(E.not_(self._b(a)), self._b(b)))
    def iff(self, a, b): return V.wrap(E.eq(self._b(a), self._b(b)))

    def ite(self, c, a, b):
        return V.ite(V.wrap(self._b(c)), self.scalar(a), self.scalar(b))

    def max(self, *xs):
        r = self.scalar(xs[0])
        for x in xs[1:]:
            r = V.smax(r, self.scalar(x))
        return r

    def min(self, *xs):
        r = self.scalar(xs[0])
        for x in xs[1:]:
            r = V.smin(r, self.scalar(x))
        return r

    def sqrt(self, x): return V.sqrt(self.scalar(x))
    def exp(self, x): return V.fn("exp", self.scalar(x))
    def sin(self, x): return V.fn("sin", self.scalar(x))
    def cos(self, x): return V.fn("cos", self.scalar(x))
    def log10(self, x): return V.fn("log10", self.scalar(x))
    def pow10(self, x): return V.fn("pow10", self.scalar(x))
    def floor(self, x):
        x = self.scalar(x)
        return x.__floor__() if isinstance(x, Sym) else int(np.floor(x))

    def re(self, x): return V.cre(self.scalar(x))
    def im(self, x): return V.cim(self.scalar(x))

    def abs(self, x):
        x = self.scalar(x)
        return abs(x)

    def ieee_nan(self):
        """0/0 in tensor code is NaN (instead of leaving the claim's domain)"""
        self.ctx.nan = True

    def branch(self, c):
        """case split"""
        return bool(V.wrap(self._b(c)))

    # ------------------------------------------------------------ structure
    def shape(self, t):
        return tuple(t.shape)

    def elems(self, t):
        """flat list of scalars"""
        if hasattr(t, "_all"):
            return t._all()
        if isinstance(t, np.ndarray):
            return [x.item() if isinstance(x, np.generic) else x for x in t.ravel()]
        if isinstance(t, (list, tuple)):
            out = []
            for x in t:
                out += self.elems(x)
            return out
        return [t]

    # ------------------------------------------------------------ obligations
    def _margin(self, tol):
        return Fraction(repr(float(tol))) * self.tol_factor

    def prove(self, cond, msg):
        self._prove(self._b(cond), msg)

    def prove_close(self, a, b, msg, tol=1e-9, rel=None):
        """|a-b| <= tol (+ rel*|scale|), element-wise for tensors"""
        A, B = self.elems(a), self.elems(b)
        if len(A) != len(B) and len(B) == 1:
            B = B * len(A)
        if len(A) != len(B):
            self._prove(E.FALSE, msg + " (number of elements %d != %d)" % (len(A), len(B)))
            return
        goals = []
        for i, (x, y) in enumerate(zip(A, B)):
            for part, (p, q) in enumerate(((V.cre(x), V.cre(y)), (V.cim(x), V.cim(y)))):
                if part == 1 and V.zero(p) and V.zero(q):
                    continue
                if not is_sym(p) and not is_sym(q):
                    self.run.obligations += 1
                    t = tol + (rel * abs(q) if rel else 0)
                    if p == q or abs(p - q) <= t:
                        self.run.syntactic += 1
                    else:
                        self._prove(E.FALSE, "%s [element %d]: %r != %r" % (msg, i, p, q))
                    continue
                if _nonfinite(p) or _nonfinite(q):
                    self._prove(E.FALSE, "%s [element %d]: non-finite" % (msg, i))
                    continue
                d = E.sub(E.toreal(V.node(p)), E.toreal(V.node(q)))
                t = E.const(self._margin(tol))
                if rel:
                    t = E.add(t, E.scale(E.absx(E.toreal(V.node(q))), self._margin(rel)))
                g = E.and_(E.le(d, t), E.le(E.neg(d), t))
                if g is E.TRUE and len(self._closed) < 300:
                    self._closed.append((E.toreal(V.node(p)), E.toreal(V.node(q)), self._margin(tol)))
                goals.append((g, "%s [element %d]" % (msg, i), d if not rel else None, self._margin(tol)))
        for g, m, d, t in goals:
            if self._algebra and g is not E.TRUE and d is not None:
                z = self._by_algebra(d, t)
                if z is not False:
                    self.run.obligations += 1
                    if z is True:
                        self.run.discharged += 1
                    else:
                        self._candidate(m, z, g)
                    continue
            self._prove(g, m, keep=len(goals) <= 8)

    def algebra(self, cap=60000, exact=True):
        """from here on, differences of rational functions are brought over a
        common denominator before they go to the solver; exact: they are
        expected to vanish identically"""
        self._algebra = cap
        self._exact = exact
        self.ctx.algebra = True

    def _by_algebra(self, d, tol):
        t0 = time.time()
        z = rational.reduced(d) if self._exact else False
        self.run.notes["algebra_reduced_s"] = round(self.run.notes.get("algebra_reduced_s", 0) + time.time() - t0, 3)
        if z:
            return True
        if z is False:
            env = self._counterexample(d, tol)
            if env is not None:
                return _Point(env)
        r = rational.normal(d, self._algebra)
        self.run.notes["algebra_s"] = round(self.run.notes.get("algebra_s", 0) + time.time() - t0, 3)
        if r is None:
            self.run.notes["algebra_too_big"] = self.run.notes.get("algebra_too_big", 0) + 1
            return False
        N, D, terms = r
        self.run.notes["algebra_terms"] = max(self.run.notes.get("algebra_terms", 0), terms)
        # |N| <= tol * prod |D|^k
        den = E.const(tol)
        for f, k in D:
            den = E.mul(den, E.powi(E.absx(f) if k % 2 else f, k))
        for g in (E.le(N, den), E.le(E.neg(N), den)):
            if g is E.TRUE:
                continue
            neg = E.not_(g)
            cons = slice_cached(self.ctx.pc, Z_vars(neg)) + [neg]
            if Z.check(cons, timeout=self.run.opts["query_timeout"])[0] != "unsat":
                return False
        return True

    def _counterexample(self, d, tol):
        """inputs of this path where |d| exceeds the tolerance, if a few tries find one"""
        rng = random.Random(5)
        tests = self.ctx.tests()
        t = E.const(tol)
        bad = E.or_(E.lt(t, d), E.lt(t, E.neg(d)))
        for _ in range(40):
            env = random_inputs(self.ctx.inputs, rng)
            try:
                val = E.evaluate(tests + [bad], env, exact=False)
            except (E.EvalError, ZeroDivisionError, OverflowError, KeyError):
                continue
            if val[bad.id] and all(val[c.id] for c in tests):
                return env
        return None

    def _candidate(self, msg, point, goal):
        run, ctx = self.run, self.ctx
        if sum(1 for c in run.candidates if c.msg.split(" [")[0] == msg.split(" [")[0]) >= run.opts["max_candidates"]:
            return
        c = Candidate(msg, dict(point.env), "assert", (list(ctx.pc), E.not_(goal)))
        c.vars = dict(ctx.inputs)
        c.choices = dict(ctx.choices)
        run.candidates.append(c)
        if len(run.candidates) >= run.opts["max_total_candidates"]:
            raise StopPath()

    def prove_le(self, a, b, msg, tol=1e-9):
        for x, y in self._pairs(a, b):
            if not is_sym(x) and not is_sym(y):
                self._prove(E.boolc(x <= y + tol), msg)
            else:
                self._prove(E.le(E.sub(self._n(x), self._n(y)), E.const(self._margin(tol))), msg)

    def prove_eq(self, a, b, msg):
        """exact equality (integers, booleans, python objects)"""
        for x, y in self._pairs(a, b):
            if is_sym(x) or is_sym(y):
                r = x == y
                self._prove(self._b(r), msg)
            else:
                self._prove(E.boolc(bool(x == y)), "%s: %r != %r" % (msg, x, y))

    def _pairs(self, a, b):
        A, B = self.elems(a), self.elems(b)
        if len(B) == 1 and len(A) != 1:
            B = B * len(A)
        if len(A) == 1 and len(B) != 1:
            A = A * len(B)
        if len(A) != len(B):
            self._prove(E.FALSE, "element count %d != %d" % (len(A), len(B)))
            return []
        return list(zip(A, B))

    def _prove(self, goal, msg, keep=True):
        run = self.run
        run.obligations += 1
        if goal is E.TRUE:
            run.syntactic += 1
            return
        # split conjunctions: smaller queries
        if goal.op == "and" and len(goal.args) <= 64:
            for g in goal.args:
                self._prove1(g, msg, keep)
            return
        self._prove1(goal, msg, keep)

    def _prove1(self, goal, msg, keep=True):
        run, ctx = self.run, self.ctx
        if goal.id in ctx.pcset:
            run.discharged += 1
            return
        neg = E.not_(goal)
        if neg is not E.TRUE:
            cons = slice_cached(ctx.pc, Z_vars(neg)) + [neg]
        else:
            cons = list(ctx.pc)
        r, m = Z.check(cons, timeout=run.opts["query_timeout"], want_model=True)
        if r == "unsat":
            run.discharged += 1
            if keep:  # a proved goal helps later ones
                ctx.assume(goal)
            return
        if goal is E.FALSE and r == "unsat":
            raise engine.Infeasible()
        n = sum(1 for c in run.candidates if c.msg.split(" [")[0] == msg.split(" [")[0])
        if n >= run.opts["max_candidates"]:
            if goal is E.FALSE:
                raise StopPath()
            return
        full = None
        if r == "sat":
            full = m
            if neg is not E.TRUE and len(cons) <= len(ctx.pc):
                r2, m2 = Z.check(list(ctx.pc) + [neg], timeout=run.opts["query_timeout"], want_model=True, kind="feasibility")
                if r2 == "sat" and m2:
                    full = m2
                elif r2 == "unsat":
                    raise engine.Infeasible()
        cand = Candidate(msg, self.inputs_from(full or {}), "assert" if r == "sat" else "unknown", (list(ctx.pc), neg))
        cand.vars = dict(ctx.inputs)
        cand.choices = dict(ctx.choices)
        run.candidates.append(cand)
        if goal is E.FALSE or len(run.candidates) >= run.opts["max_total_candidates"]:
            raise StopPath()

    def crosscheck(self):
        """goals closed by the expression normal form are put to the solver
        too, un-normalised (one query per path)"""
        todo = [c for c in self._closed if c[0] is not c[1]] or self._closed[:20]
        if self._algebra:
            todo = [c for c in todo if len(E.topo([c[0], c[1]])) < 60]
        if not todo or self.run.notes.get("crosscheck_paths", 0) >= 20:
            return
        self.run.notes["crosscheck_paths"] = self.run.notes.get("crosscheck_paths", 0) + 1
        r, cnt = Z.confirm(todo, 3.0)
        self.run.notes["crosscheck_goals"] = self.run.notes.get("crosscheck_goals", 0) + cnt
        self.run.notes["crosscheck_" + r] = self.run.notes.get("crosscheck_" + r, 0) + 1
        if r == "sat":
            self.run.undecided.append("solver and simplifier disagree on a goal")

    def inputs_from(self, model):
        out = {}
        for k, n in self.ctx.inputs.items():
            v = model.get(k)
            if v is None:
                v = default_value(n)
            out[k] = bool(v) if n.sort == "B" else (int(v) if n.sort == "I" else float(v))
        for k, v in self.ctx.choices.items():
            out[k] = v
        return out

    # ------------------------------------------------------------ exceptions
    def raises(self, fn, *exc):
        """run fn; return the exception it raised (of the given types) or None"""
        try:
            self.result = fn()
        except exc as e:
            return e
        return None

    # ------------------------------------------------------------ environment
    def patch(self, obj, attr, value):
        miss = object()
        old = obj.__dict__.get(attr, miss) if hasattr(obj, "__dict__") else getattr(obj, attr)
        had = getattr(obj, attr, miss)
        self._undo.append((obj, attr, old, miss))
        setattr(obj, attr, value)
        return None if had is miss else had

    def cleanup(self):
        for obj, attr, old, miss in reversed(self._undo):
            if old is miss:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)
        from . import symtorch, symnp
        symtorch.BARRIER[0] = None
        symtorch.NOGRAD[0] = 0
        symtorch.RNG_HOOK[0] = None
        symtorch.SEED_HOOK[0] = None
        symnp.SEED_HOOK[0] = None
        symnp.RNG_HOOK[0] = None
        symtorch._default[0] = symtorch.float64

    def symbolic_rng(self):
        """every random number drawn becomes a fresh input (uniform draws in
        [a,b], normal draws unbounded up to 6 sigma)"""
        from . import symtorch

        def draw(kind, *p):
            i = self._nrng
            self._nrng += 1
            lo, hi = {"rand": (0.0, 1.0), "randn": (-6.0, 6.0), "linear": (-1.0, 1.0)}.get(kind, (None, None))
            if kind == "uniform":
                a, b = p
                u = self.real("rng%d" % i, 0.0, 1.0)
                return a + u * (b - a)
            return self.real("rng%d" % i, lo, hi)
        symtorch.RNG_HOOK[0] = draw

    def seeded_rng(self):
        """random numbers are unknown functions of (library, last seed, number
        of draws since); unseeded draws are all different"""
        from . import symtorch, symnp, loader
        state = {"torch": None, "numpy": None}
        count = {"torch": 0, "numpy": 0}
        keep = []

        def key(s):
            if is_sym(s):
                return "s%d" % V.node(s).id
            if hasattr(s, "_scalar_value"):
                return key(s._scalar_value())
            if isinstance(s, (int, np.integer)):
                return "c%d" % int(s)
            keep.append(s)
            return "o%d" % len(keep)

        def seed(lib):
            def f(s):
                state[lib] = key(s)
                count[lib] = 0
            return f

        def draw(lib):
            def f(kind, *p):
                if state[lib] is None:
                    self._nrng += 1
                    name = "rng_%s_free_%d" % (lib, self._nrng)
                else:
                    name = "rng_%s_%s_%d" % (lib, state[lib], count[lib])
                    count[lib] += 1
                lo, hi = {"rand": (0.0, 1.0), "randn": (-6.0, 6.0), "linear": (-1.0, 1.0)}.get(kind, (0.0, 1.0))
                if name in self.ctx.inputs:
                    v = Sym(self.ctx.inputs[name])
                else:
                    v = self.real(name, lo, hi)
                if kind == "uniform":
                    a, b = p
                    return a + v * (b - a)
                return v
            return f
        symtorch.RNG_HOOK[0] = draw("torch")
        symnp.RNG_HOOK[0] = draw("numpy")
        symtorch.SEED_HOOK[0] = seed("torch")
        symnp.SEED_HOOK[0] = seed("numpy")

    def gradient(self, fn, leaves, msg, tol=1e-6):
        """the derivative that autograd delivers for fn() with respect to the
        tensors in leaves is the derivative of its value.  Values that pass an
        operation through which no gradient flows (detach, item, numpy,
        tensor(tensor), no_grad ...) are constants for autograd: shifting them
        by any amounts must not change the result of fn."""
        from . import symtorch as T
        n0, hits = self._nrng, []
        vs = set()
        for l in leaves:
            for e in self.elems(l):
                for q in (V.cre(e), V.cim(e)):
                    if is_sym(q):
                        vs |= set(v.args[0] if not isinstance(v, str) else v for v in E.variables([q.node]))

        def depends(v):
            return bool(vs & set(x.args[0] if not isinstance(x, str) else x for x in E.variables([V.node(v)])))

        def count(v):
            if depends(v):
                hits.append(v)
            return v

        def shift(v):
            if not depends(v):
                return v
            k = len(shifted)
            shifted.append(v)
            if getattr(v.node, "sort", "R") != "R":
                return v
            return v + self.real("shift%d" % k, -0.5, 0.5)

        def once(bar):
            self._nrng = n0
            T.BARRIER[0] = bar
            try:
                return self.elems(fn())
            finally:
                T.BARRIER[0] = None
                T.NOGRAD[0] = 0
        shifted = []
        a = once(count)
        self.prove(len(a) > 0, msg)
        self.run.notes["gradient_cuts"] = self.run.notes.get("gradient_cuts", 0) + len(hits)
        b = once(shift) if hits else a
        self.prove_close(b, a, msg, tol=tol)
        return a

    def seed_hook(self, fn):
        """fn(library, seed) is called for every reseeding of a generator"""
        from . import symtorch, symnp, loader
        symtorch.SEED_HOOK[0] = lambda s: fn("torch", s)
        symnp.SEED_HOOK[0] = lambda s: fn("numpy", s)
        loader._shim_imports["random"].SEED_HOOK[0] = lambda s: fn("random", s)

    def frame(self, cols):
        from . import sympandas
        return sympandas.DataFrame(cols)

    def number(self, text):
        """the (single) number that a text states"""
        import re
        m = re.findall(r"<sym(\d+)>", text)
        if m:
            return V.FORMATTED[int(m[-1])]
        return float(re.findall(r"[-+]?\d*\.\d+(?:e[-+]?\d+)?|[-+]?\d+(?:e[-+]?\d+)?", text)[-1])

    def observe(self, name, value):
        """value compared between the symbolic run and the real run"""
        self._obs.append((name, self.elems(value)))

    def note(self, k, v=1):
        self.run.notes[k] = self.run.notes.get(k, 0) + v


def _nonfinite(x):
    return isinstance(x, float) and (x != x or x in (float("inf"), float("-inf")))


def default_value(n):
    if n.sort == "B":
        return False
    lo, hi = E.interval(n)
    if lo is not None and hi is not None:
        v = (lo + hi) / 2
        if n.sort == "I":
            v = Fraction(int(lo + (hi - lo) // 2))
        return v
    if lo is not None:
        return lo + (1 if n.sort == "I" else 1)
    if hi is not None:
        return hi - 1
    return Fraction(0)


def random_inputs(vars_, rng):
    out = {}
    for k, n in vars_.items():
        if n.sort == "B":
            out[k] = rng.random() < 0.5
            continue
        lo, hi = E.interval(n)
        lo = float(lo) if lo is not None else (float(hi) - 10 if hi is not None else -10.0)
        hi = float(hi) if hi is not None else lo + 20.0
        if n.sort == "I":
            out[k] = rng.randint(int(np.ceil(lo)), int(np.floor(hi)))
            continue
        t = rng.random()
        if t < 0.6:
            v = rng.uniform(lo, hi)
        elif t < 0.7 and lo > 0:
            v = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
        elif t < 0.85:
            v = lo if rng.random() < 0.5 else hi
        else:
            v = float(rng.choice([0.0, 1.0, 0.5, -1.0, 2.0, lo, hi]))
            v = min(max(v, lo), hi)
        out[k] = v
    return out


def search_point(cand, seconds, rng):
    """numeric search for a point of pc /\\ not goal (used only to find a
    replayable witness after the solver failed to discharge the goal)"""
    pc, neg = cand.goal
    roots = list(pc) + [neg]
    t0 = time.time()
    while time.time() - t0 < seconds:
        env = random_inputs(cand.vars, rng)
        try:
            val = E.evaluate(roots, env, exact=False)
        except (E.EvalError, ZeroDivisionError, OverflowError, KeyError):
            continue
        if all(val[r.id] for r in roots):
            env.update(cand.choices)
            yield env
