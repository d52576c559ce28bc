"""Replacements for builtins whose native versions force a symbolic number to
a concrete one.  They are injected into the globals of every loaded module of
the code under test (and of the harness), so `int(x)`, `isinstance(x, float)`,
`max(a, b)` ... keep symbolic values symbolic.  On concrete values they are
the builtins themselves."""
import builtins as _bi
import numpy as np
from . import values as V
from .values import Sym, SBool, SCplx, is_sym
from .engine import Unsupported


class _Meta(type):
    def __instancecheck__(cls, x):
        if _bi.isinstance(x, cls._native):
            return True
        return cls._symcheck(x)

    def __subclasscheck__(cls, c):
        if c is cls:
            return True
        if _bi.isinstance(c, _Meta):
            c = c._native
        return _bi.issubclass(c, cls._native)

    def __eq__(cls, o):
        return o is cls or o is cls._native

    def __ne__(cls, o):
        return not (o is cls or o is cls._native)

    def __hash__(cls):
        return hash(cls._native)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __repr__(cls):
        return repr(cls._native)

    def __getattr__(cls, n):
        return getattr(cls._native, n)

    @property
    def __name__(cls):
        return cls._native.__name__


def _item(x):
    """0-d tensors/arrays holding a symbolic scalar -> the scalar"""
    if hasattr(x, "_scalar_value"):
        return x._scalar_value()
    if _bi.isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return x


class int_(metaclass=_Meta):
    _native = _bi.int

    @staticmethod
    def _symcheck(x):
        return _bi.isinstance(x, SBool) or (_bi.isinstance(x, Sym) and x.is_int)

    @staticmethod
    def _conv(*a, **k):
        if len(a) == 1 and not k:
            x = _item(a[0])
            if _bi.isinstance(x, (Sym, SBool)):
                return V.simp(V.trunc(x)) if _bi.isinstance(x, Sym) else V.trunc(x)
            return _bi.int(x)
        return _bi.int(*a, **k)


class float_(metaclass=_Meta):
    _native = _bi.float

    @staticmethod
    def _symcheck(x):
        return _bi.isinstance(x, Sym) and not x.is_int

    @staticmethod
    def _conv(*a, **k):
        if len(a) == 1:
            x = _item(a[0])
            if _bi.isinstance(x, (Sym, SBool)):
                from . import expr as E
                return Sym(E.toreal(V.node(x)))
            if _bi.isinstance(x, SCplx):
                raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return _bi.float(x)
        return _bi.float(*a, **k)


class bool_(metaclass=_Meta):
    _native = _bi.bool

    @staticmethod
    def _symcheck(x):
        return _bi.isinstance(x, SBool)

    @staticmethod
    def _conv(*a, **k):
        return _bi.bool(*a, **k)


class complex_(metaclass=_Meta):
    _native = _bi.complex

    @staticmethod
    def _symcheck(x):
        return _bi.isinstance(x, SCplx)

    @staticmethod
    def _conv(*a, **k):
        a = [_item(x) for x in a]
        if _bi.any(is_sym(x) for x in a):
            if len(a) == 1:
                return SCplx.of(a[0])
            return SCplx.of(a[0]) + SCplx.of(a[1]) * 1j
        return _bi.complex(*a, **k)


_MAP = {_bi.int: int_, _bi.float: float_, _bi.bool: bool_, _bi.complex: complex_}
_missing = object()


def type_(*a, **k):
    if len(a) != 1:
        return _bi.type(*a, **k)
    x = a[0]
    if _bi.isinstance(x, Sym):
        return int_ if x.is_int else float_
    if _bi.isinstance(x, SBool):
        return bool_
    if _bi.isinstance(x, SCplx):
        return complex_
    t = _bi.type(x)
    return _MAP.get(t, t)


class _TypeMeta(_bi.type):
    def __instancecheck__(cls, x):
        return _bi.isinstance(x, _bi.type)

    def __call__(cls, *a, **k):
        return type_(*a, **k)


class typeshim(metaclass=_TypeMeta):
    pass


def _ext(native, better, fold):
    def f(*a, key=None, default=_missing):
        it = list(a[0]) if len(a) == 1 else list(a)
        if key is None and it and _bi.any(is_sym(_item(x)) for x in it):
            it2 = [_item(x) for x in it]
            if _bi.all(_bi.isinstance(x, (Sym, SBool, int, float, np.integer, np.floating, bool)) for x in it2):
                r = it2[0]
                for x in it2[1:]:
                    r = fold(r, x)
                if hasattr(it[0], "_scalar_value"):
                    return it[0]._new(r)
                return r
        kw = {}
        if key is not None:
            kw["key"] = key
        if default is not _missing:
            kw["default"] = default
        return native(it, **kw)
    f.__name__ = native.__name__
    return f


def _as(x):
    return x


max_ = _ext(_bi.max, None, V.smax)
min_ = _ext(_bi.min, None, V.smin)


def all_(it):
    it = list(it)
    if _bi.any(_bi.isinstance(_item(x), (SBool, Sym)) for x in it):
        return V.sand(*[V.wrap(V.bnode(_item(x))) if is_sym(_item(x)) else _bi.bool(x) for x in it])
    return _bi.all(it)


def any_(it):
    it = list(it)
    if _bi.any(_bi.isinstance(_item(x), (SBool, Sym)) for x in it):
        return V.sor(*[V.wrap(V.bnode(_item(x))) if is_sym(_item(x)) else _bi.bool(x) for x in it])
    return _bi.any(it)


def round_(x, nd=None):
    y = _item(x)
    if _bi.isinstance(y, Sym):
        return V.round_(y, nd)
    return _bi.round(x, nd) if nd is not None else _bi.round(x)


def isinstance_(x, t):
    return _bi.isinstance(x, t)


INJECT = {
    "int": int_, "float": float_, "bool": bool_, "complex": complex_,
    "type": typeshim, "max": max_, "min": min_, "all": all_, "any": any_,
    "round": round_,
}
