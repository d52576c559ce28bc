"""numpy as seen by the code under test: the real numpy on concrete values,
element-wise symbolic versions when an argument holds symbolic scalars."""
import math
import types
import functools
import builtins as _bi
from collections import deque as _deque
import numpy as _np
from fractions import Fraction
from . import expr as E
from . import values as V
from . import engine
from .values import Sym, SBool, SCplx, is_sym
from .engine import Unsupported, NonFinite


def _fp(f, n):
    return _np.frompyfunc(f, n, 1)


def _cm(op):
    return _fp(lambda a, b: op(a, b), 2)


def _sqrt(x):
    if isinstance(x, (SCplx, complex)):
        from .symtorch import csqrt
        return csqrt(V.cre(x), V.cim(x))
    return V.sqrt(x)


def _exp(x):
    if isinstance(x, (SCplx, complex)):
        from .symtorch import _cexp
        return _cexp(V.cre(x), V.cim(x))
    return V.fn("exp", x)


def _div(a, b):
    if isinstance(a, (SCplx, complex)) or isinstance(b, (SCplx, complex)):
        return SCplx.of(a) / SCplx.of(b)
    return V.rdiv(a, b)


def _fl(x):
    return x.floor() if isinstance(x, Sym) else float(math.floor(x))


def _ce(x):
    return x.ceil() if isinstance(x, Sym) else float(math.ceil(x))


_UF = {
    "greater": _cm(lambda a, b: a > b), "greater_equal": _cm(lambda a, b: a >= b),
    "less": _cm(lambda a, b: a < b), "less_equal": _cm(lambda a, b: a <= b),
    "equal": _cm(lambda a, b: a == b), "not_equal": _cm(lambda a, b: a != b),
    "logical_and": _fp(V.sand, 2), "logical_or": _fp(V.sor, 2), "logical_not": _fp(V.snot, 1),
    "sqrt": _fp(_sqrt, 1), "exp": _fp(_exp, 1),
    "sin": _fp(lambda x: V.fn("sin", x), 1), "cos": _fp(lambda x: V.fn("cos", x), 1),
    "tanh": _fp(lambda x: V.fn("tanh", x), 1), "log": _fp(lambda x: V.fn("log", x), 1),
    "log10": _fp(lambda x: V.fn("log10", x), 1), "absolute": _fp(lambda x: abs(x), 1),
    "square": _fp(lambda x: x * x, 1), "reciprocal": _fp(lambda x: _div(1.0, x), 1),
    "maximum": _fp(V.smax, 2), "minimum": _fp(V.smin, 2), "fmax": _fp(V.smax, 2), "fmin": _fp(V.smin, 2),
    "divide": _fp(_div, 2), "true_divide": _fp(_div, 2),
    "power": _fp(lambda a, b: V.power(a, b), 2), "float_power": _fp(lambda a, b: V.power(a, b), 2),
    "floor": _fp(_fl, 1), "ceil": _fp(_ce, 1), "rint": _fp(lambda x: V.round_(x, 0) if isinstance(x, Sym) else float(round(x)), 1),
    "isnan": _fp(lambda x: (not is_sym(x)) and x != x, 1),
    "isfinite": _fp(lambda x: is_sym(x) or math.isfinite(x), 1),
    "isinf": _fp(lambda x: (not is_sym(x)) and math.isinf(x), 1),
    "conjugate": _fp(lambda x: x.conjugate(), 1),
    "sign": _fp(lambda x: V.ite(x > 0, 1.0, V.ite(x < 0, -1.0, 0.0)), 1),
}


class SymArray(_np.ndarray):
    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        from .symtorch import Tensor
        if _bi.any(isinstance(i, Tensor) for i in inputs):
            return NotImplemented
        ins = [i.view(_np.ndarray) if isinstance(i, SymArray) else i for i in inputs]
        if method == "__call__" and uf.__name__ in _UF and out is None:
            ins2 = []
            for i in ins:
                if isinstance(i, _np.ndarray) and i.dtype != object:
                    i = i.astype(object)
                ins2.append(i)
            r = _UF[uf.__name__](*ins2)
        else:
            if out is not None:
                kw["out"] = tuple(o.view(_np.ndarray) if isinstance(o, SymArray) else o for o in out)
            kw.pop("where", None) if kw.get("where") is True else None
            if uf.__name__ in ("maximum", "minimum") and method == "reduce":
                return _red(ins[0], kw.get("axis", 0), V.smax if uf.__name__ == "maximum" else V.smin)
            r = getattr(uf, method)(*ins, **kw)
        return wrap_array(r)

    def max(self, axis=None, **k):
        return _red(self, axis, V.smax)

    def min(self, axis=None, **k):
        return _red(self, axis, V.smin)

    def argmin(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return _arg(self, axis, lambda a, b: a > b)

    def mean(self, axis=None, **k):
        return _mean(self, axis)

    def all(self, *a, **k):
        return V.sand(*list(self.ravel()))

    def any(self, *a, **k):
        return V.sor(*list(self.ravel()))

    def astype(self, t, *a, **k):
        return wrap_array(self.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_finalize__(self, obj):
        pass


def _red(a, axis, f):
    a = _np.asarray(a).view(_np.ndarray)
    if axis is None:
        a = a.ravel()
        axis = 0
    r = a.take(0, axis)
    for i in range(1, a.shape[axis]):
        r = _fp(f, 2)(r, a.take(i, axis))
    return wrap_array(r)


def _arg(a, axis, better):
    from .symtorch import _argext
    a = _np.asarray(a).view(_np.ndarray)
    if axis is None:
        return _argext(list(a.ravel()), better)[1]
    raise Unsupported("argmin axis")


def has_sym(a):
    if is_sym(a):
        return True
    if isinstance(a, _np.ndarray):
        return a.dtype == object and _bi.any(is_sym(x) for x in a.ravel())
    if hasattr(a, "has_sym"):
        return a.has_sym()
    if isinstance(a, (list, tuple, _deque)):
        return _bi.any(has_sym(x) for x in a)
    return False


def wrap_array(a):
    if isinstance(a, _np.ndarray):
        if a.dtype == object and a.ndim > 0:
            return a.view(SymArray)
        if a.dtype == object and a.ndim == 0:
            return a[()]
    return a


def _deep(d):
    """nested data with tensors -> object array"""
    from .symtorch import _flat
    a, _ = _flat(d)
    return a.copy()


def array(d, dtype=None, copy=True, **k):
    if has_sym(d):
        return wrap_array(_deep(d)) if not is_sym(d) else wrap_array(_deep([d])).reshape(())[()]
    return _np.array(_nat(d), dtype=_dt(dtype), **k)


def _dt(d):
    from . import builtins_shim as B
    return getattr(d, "_native", d) if isinstance(d, B._Meta) else d


def _nat(d):
    from .symtorch import Tensor
    if isinstance(d, Tensor):
        return d.numpy()
    if isinstance(d, (list, tuple)):
        return type(d)([_nat(x) for x in d]) if _bi.any(hasattr(x, "re") for x in d) else d
    return d


def asarray(d, dtype=None, **k):
    if isinstance(d, _np.ndarray) and has_sym(d):
        return wrap_array(d)
    return array(d, dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    from . import builtins_shim as B
    num = B._item(num)
    if isinstance(num, Sym):
        num = num.__index__()
    start, stop = B._item(start), B._item(stop)
    if not (is_sym(start) or is_sym(stop)):
        return _np.linspace(start, stop, num, endpoint, retstep, _dt(dtype))
    div = (num - 1) if endpoint else num
    out = _np.empty((num,), dtype=object)
    if not isinstance(num, int):
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(num).__name__)
    for i in range(num):
        if i == 0 or div == 0:
            out[i] = start + 0.0
        else:
            t = Fraction(i, div)
            out[i] = Sym(E.add(E.scale(E.toreal(V.node(start)), 1 - t), E.scale(E.toreal(V.node(stop)), t)))
    r = wrap_array(out)
    if retstep:
        return r, (stop - start) / div
    return r


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    e = linspace(start, stop, num, endpoint)
    if not has_sym(e):
        return _np.logspace(start, stop, num, endpoint, base)
    return power(base, e)


def geomspace(start, stop, num=50, endpoint=True, **k):
    if not (is_sym(start) or is_sym(stop)):
        return _np.geomspace(start, stop, num, endpoint)
    e = linspace(V.fn("log10", start), V.fn("log10", stop), num, endpoint)
    r = power(10.0, e)
    r[0] = start
    if num > 1 and endpoint:
        r[-1] = stop
    return r


def _uf(name):
    nf = getattr(_np, name)

    @functools.wraps(nf)
    def f(*a, **k):
        from .symtorch import Tensor
        if _bi.any(has_sym(x) for x in a):
            if isinstance(a[0], Tensor):
                from . import symtorch
                g = getattr(symtorch, {"absolute": "abs", "conjugate": "conj"}.get(name, name), None)
                if g is None:
                    raise Unsupported("numpy %s of a tensor" % name)
                return g(*a)
            args = [x if is_sym(x) or not isinstance(x, (list, tuple, _deque)) else _deep(x) for x in a]
            args = [x.astype(object) if isinstance(x, _np.ndarray) and x.dtype != object else x for x in args]
            args = [x.view(_np.ndarray) if isinstance(x, _np.ndarray) else x for x in args]
            return wrap_array(_UF[name](*args))
        a = [_nat(x) for x in a]
        return nf(*a, **k)
    return f


def _average(a, axis=None, weights=None, **k):
    if not has_sym(a) and not has_sym(weights):
        return _np.average(_nat(a), axis=axis, weights=weights, **k)
    if weights is not None:
        raise Unsupported("weighted average")
    return _mean(a, axis)


def _mean(a, axis=None, **k):
    if not has_sym(a):
        return _np.mean(_nat(a), axis=axis, **k)
    from . import symtorch
    t = a if isinstance(a, symtorch.Tensor) else symtorch.tensor(a if isinstance(a, (list, tuple, _deque)) else _np.asarray(a), dtype=None)
    if t.dtype.kind in "ib":
        t = t.double()
    r = symtorch.mean(t, axis)
    if isinstance(a, symtorch.Tensor):
        return r
    r = r.re if r.im is None else symtorch._map(symtorch._mkc, r.re, r.im)
    return r[()] if r.ndim == 0 else wrap_array(r)


def _sum(a, axis=None, **k):
    if not has_sym(a):
        return _np.sum(_nat(a), axis=axis, **k)
    return wrap_array(_np.sum(asarray(a).view(_np.ndarray), axis=axis))


def _sortf(a, axis=-1, **k):
    if not has_sym(a):
        return _np.sort(_nat(a), axis=axis, **k)
    from .symtorch import _argsorted
    a = asarray(a).view(_np.ndarray)
    if a.ndim != 1:
        raise Unsupported("np.sort of a symbolic nd array")
    lst = list(a)
    return wrap_array(_deep([lst[i] for i in _argsorted(lst)]))


def _argsortf(a, axis=-1, **k):
    if not has_sym(a):
        return _np.argsort(_nat(a), axis=axis, **k)
    from .symtorch import _argsorted
    return _np.array(_argsorted(list(asarray(a).view(_np.ndarray))))


def _argminf(a, axis=None, **k):
    return asarray(a).argmin(axis) if has_sym(a) else _np.argmin(_nat(a), axis, **k)


def _argmaxf(a, axis=None, **k):
    return asarray(a).argmax(axis) if has_sym(a) else _np.argmax(_nat(a), axis, **k)


def _maxf(a, axis=None, **k):
    return asarray(a).max(axis) if has_sym(a) else _np.max(_nat(a), axis, **k)


def _minf(a, axis=None, **k):
    return asarray(a).min(axis) if has_sym(a) else _np.min(_nat(a), axis, **k)


def _where(c, *ab):
    if not ab:
        if has_sym(c):
            c = _np.array([bool(x) for x in asarray(c).ravel()]).reshape(_np.shape(c))
        return _np.where(c)
    a, b = ab
    if has_sym(c) or has_sym(a) or has_sym(b):
        return wrap_array(_fp(V.ite, 3)(c, a, b))
    return _np.where(c, a, b)


def _clip(a, lo, hi, **k):
    if has_sym(a) or has_sym(lo) or has_sym(hi):
        return minimum(maximum(a, lo), hi)
    return _np.clip(a, lo, hi, **k)


def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if has_sym(a) or has_sym(b):
        return abs(a - b) <= atol + rtol * abs(b)
    return _np.isclose(_nat(a), _nat(b), rtol=rtol, atol=atol, **k)


def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if has_sym(a) or has_sym(b):
        r = _isclose(a, b, rtol, atol)
        return bool(r.all()) if isinstance(r, _np.ndarray) else bool(r)
    return _np.allclose(_nat(a), _nat(b), rtol=rtol, atol=atol, **k)


def _any(a, *r, **k):
    return V.sor(*list(asarray(a).ravel())) if has_sym(a) else _np.any(_nat(a), *r, **k)


def _all(a, *r, **k):
    return V.sand(*list(asarray(a).ravel())) if has_sym(a) else _np.all(_nat(a), *r, **k)


def _isnan(a):
    if has_sym(a):
        return False if is_sym(a) else _uf("isnan")(a)
    return _np.isnan(_nat(a))


SEED_HOOK = [None]
RNG_HOOK = [None]


class _Random(types.ModuleType):
    def seed(self, s=None):
        if SEED_HOOK[0] is not None:
            SEED_HOOK[0](s)

    def _draw(self, kind, size, *p):
        if RNG_HOOK[0] is None:
            raise Unsupported("numpy random numbers")
        if size is None or size == ():
            return RNG_HOOK[0](kind, *p)
        a = _np.empty(size, dtype=object)
        f = a.reshape(-1)
        for i in range(f.shape[0]):
            f[i] = RNG_HOOK[0](kind, *p)
        return wrap_array(a)

    def rand(self, *s): return self._draw("rand", s)
    def randn(self, *s): return self._draw("randn", s)
    def random(self, size=None): return self._draw("rand", size)
    random_sample = random
    def uniform(self, low=0.0, high=1.0, size=None): return self._draw("uniform", size, low, high)
    def normal(self, loc=0.0, scale=1.0, size=None): return self._draw("randn", size) * scale + loc
    def standard_normal(self, size=None): return self._draw("randn", size)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.random.%s" % n)


_OV = {
    "array": array, "asarray": asarray, "asanyarray": asarray, "linspace": linspace, "logspace": logspace,
    "geomspace": geomspace, "mean": _mean, "average": _average, "sum": _sum, "sort": _sortf, "argsort": _argsortf,
    "argmin": _argminf, "argmax": _argmaxf, "max": _maxf, "amax": _maxf, "min": _minf, "amin": _minf,
    "where": _where, "clip": _clip, "isclose": _isclose, "allclose": _allclose, "any": _any, "all": _all,
    "random": _Random("numpy.random"), "isnan": _isnan,
}
for _n in _UF:
    if _n not in _OV and hasattr(_np, _n):
        _OV[_n] = _uf(_n)
_OV["abs"] = _OV["absolute"]
_OV["conj"] = _OV["conjugate"]
power = _OV["power"]
minimum, maximum = _OV["minimum"], _OV["maximum"]


class NumpyShim(types.ModuleType):
    ndarray = _np.ndarray
    __version__ = _np.__version__

    def __getattr__(self, n):
        if n in _OV:
            return _OV[n]
        v = getattr(_np, n)
        if callable(v) and not isinstance(v, type):
            @functools.wraps(v)
            def g(*a, **k):
                try:
                    r = v(*[_nat(x) for x in a], **{q: _dt(x) for q, x in k.items()})
                except engine.PathControl:
                    raise
                except TypeError as e:
                    if _bi.any(has_sym(x) for x in a):
                        raise Unsupported("numpy.%s on symbolic values: %s" % (n, e))
                    raise
                return wrap_array(r) if isinstance(r, _np.ndarray) else r
            return g
        return v


module = NumpyShim("numpy")
module.__dict__["__path__"] = []


# ---------------------------------------------------------------- math
def _m1(name, sym):
    nat = getattr(math, name)

    def f(x, *r):
        from . import builtins_shim as B
        y = B._item(x)
        if isinstance(y, (Sym, SBool)):
            return sym(y)
        return nat(x, *r)
    f.__name__ = name
    return f


def _msqrt(y):
    if engine.ctx().branch(E.lt(V.node(y), E.const(0))):
        raise ValueError("math domain error")
    return V.sqrt(y)


def _mlog(n):
    def g(y):
        if engine.ctx().branch(E.le(V.node(y), E.const(0))):
            raise ValueError("math domain error")
        return V.fn(n, y)
    return g


mathmod = types.ModuleType("math")
for _n in dir(math):
    setattr(mathmod, _n, getattr(math, _n))
mathmod.sqrt = _m1("sqrt", _msqrt)
mathmod.sin = _m1("sin", lambda y: V.fn("sin", y))
mathmod.cos = _m1("cos", lambda y: V.fn("cos", y))
mathmod.exp = _m1("exp", lambda y: V.fn("exp", y))
mathmod.tanh = _m1("tanh", lambda y: V.fn("tanh", y))
mathmod.log = _m1("log", _mlog("log"))
mathmod.log10 = _m1("log10", _mlog("log10"))
mathmod.floor = _m1("floor", lambda y: y.__floor__())
mathmod.ceil = _m1("ceil", lambda y: y.__ceil__())
mathmod.trunc = _m1("trunc", lambda y: V.trunc(y))
mathmod.fabs = _m1("fabs", lambda y: abs(y))
mathmod.isnan = _m1("isnan", lambda y: False)
mathmod.isinf = _m1("isinf", lambda y: False)
mathmod.isfinite = _m1("isfinite", lambda y: True)


def _mpow(a, b):
    if is_sym(a) or is_sym(b):
        return V.power(a, b)
    return math.pow(a, b)


mathmod.pow = _mpow


def _misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        return abs(a - b) <= V.smax(rel_tol * V.smax(abs(a), abs(b)), abs_tol)
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


mathmod.isclose = _misclose
mathmod.hypot = lambda *a: V.sqrt(sum(x * x for x in a)) if _bi.any(is_sym(x) for x in a) else math.hypot(*a)
