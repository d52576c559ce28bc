"""A small pandas stand-in: tables of possibly symbolic columns."""
import types
import numpy as _np
import builtins as _bi
from . import values as V
from .values import Sym, is_sym
from .engine import Unsupported
from . import symnp

READ_HOOK = [None]


class Series:
    def __init__(self, data, index=None, name=None):
        self._d = list(data)
        self.index = list(index) if index is not None else list(range(len(self._d)))
        self.name = name

    def _bin(self, o, f):
        if isinstance(o, Series):
            return Series([f(a, b) for a, b in zip(self._d, o._d)], self.index)
        if isinstance(o, _np.ndarray) and o.ndim == 1:
            return Series([f(a, b) for a, b in zip(self._d, o)], self.index)
        if hasattr(o, "_scalar_value"):
            o = o._scalar_value()
        return Series([f(a, o) for a in self._d], self.index)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, V.rdiv)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: V.rdiv(b, a))
    def __pow__(self, o): return self._bin(o, V.power)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b)
    def __abs__(self): return Series([_bi.abs(a) for a in self._d], self.index)
    def __neg__(self): return Series([-a for a in self._d], self.index)
    add, sub, mul, div = __add__, __sub__, __mul__, __truediv__
    subtract = sub
    rsub = __rsub__
    truediv = div
    pow = __pow__
    abs = __abs__

    def _arg(self, better):
        from .symtorch import _argext
        return _argext(self._d, better)[1]

    def argmin(self): return self._arg(lambda a, b: a < b)
    def argmax(self): return self._arg(lambda a, b: a > b)

    def _lab(self, p):
        if self.index == list(range(len(self._d))):
            return p
        return self.index[p.__index__() if is_sym(p) else p]

    def idxmin(self): return self._lab(self.argmin())
    def idxmax(self): return self._lab(self.argmax())

    def min(self):
        return symnp._red(_np.array(self._d, dtype=object), None, V.smin)

    def max(self):
        return symnp._red(_np.array(self._d, dtype=object), None, V.smax)

    def sum(self):
        from .symtorch import _sumel
        return _sumel(self._d)

    def mean(self):
        return self.sum() / len(self._d)

    def __len__(self): return len(self._d)
    def __iter__(self): return iter(self._d)
    def tolist(self): return list(self._d)
    to_list = tolist

    def to_numpy(self, *a, **k):
        if _bi.any(is_sym(x) for x in self._d):
            return symnp.wrap_array(symnp._deep(self._d))
        return _np.array(self._d)

    @property
    def values(self):
        return self.to_numpy()

    def __array__(self, *a, **k):
        return _np.asarray(self.to_numpy())

    @property
    def iloc(self): return _SLoc(self, True)

    @property
    def loc(self): return _SLoc(self, False)

    @property
    def shape(self): return (len(self._d),)

    def __getitem__(self, k):
        if isinstance(k, str) or not isinstance(k, (int, Sym, _np.integer)):
            if k in self.index:
                return self._d[self.index.index(k)]
            raise KeyError(k)
        return _sel(self._d, k)

    def __getattr__(self, k):
        if not k.startswith("_") and k in self.__dict__.get("index", ()):
            return self._d[self.index.index(k)]
        raise AttributeError(k)


def _sel(lst, k):
    """element at a possibly symbolic position"""
    if isinstance(k, Sym):
        import builtins
        from . import expr as E
        iv = E.interval(k.node)
        lo = 0
        hi = len(lst) - 1
        if iv[0] is not None and iv[0] >= 0 and iv[1] is not None and iv[1] <= hi:
            r = lst[hi]
            for i in range(hi - 1, -1, -1):
                r = V.ite(k == i, lst[i], r)
            return r
        k = k.__index__()
    return lst[k]


class _SLoc:
    def __init__(self, s, pos):
        self.s, self.pos = s, pos

    def __getitem__(self, k):
        if not self.pos and not is_sym(k):
            k = self.s.index.index(k)
        return _sel(self.s._d, k)


class _DLoc:
    def __init__(self, d, pos):
        self.d, self.pos = d, pos

    def __getitem__(self, k):
        d = self.d
        col = None
        if isinstance(k, tuple):
            k, col = k
        if hasattr(k, "_scalar_value"):
            k = k._scalar_value()
        if isinstance(k, slice):
            raise Unsupported("DataFrame slice")
        if not self.pos and not is_sym(k):
            k = d.index.index(k)
        row = Series([_sel(d._c[c], k) for c in d.columns], list(d.columns))
        if col is None:
            return row
        return row._d[col] if self.pos else row[col]


class DataFrame:
    def __init__(self, data, columns=None):
        self._c = {str(k): list(v) for k, v in data.items()}
        self.columns = list(self._c)
        n = len(self._c[self.columns[0]])
        self.index = list(range(n))

    def __len__(self): return len(self.index)

    @property
    def shape(self): return (len(self.index), len(self.columns))

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self._c:
                raise KeyError(k)
            return Series(self._c[k], self.index, k)
        if isinstance(k, list):
            return DataFrame({c: self._c[c] for c in k})
        raise Unsupported("DataFrame indexing")

    def __getattr__(self, k):
        c = self.__dict__.get("_c", {})
        if k in c:
            return Series(c[k], self.index, k)
        raise AttributeError(k)

    @property
    def iloc(self): return _DLoc(self, True)

    @property
    def loc(self): return _DLoc(self, False)

    def to_numpy(self, *a, **k):
        return symnp.array([[self._c[c][i] for c in self.columns] for i in self.index])

    @property
    def values(self):
        return self.to_numpy()

    def iterrows(self):
        for i in self.index:
            yield i, Series([self._c[c][i] for c in self.columns], self.columns)

    def itertuples(self):
        import collections
        T = collections.namedtuple("Pandas", ["Index"] + self.columns)
        for i in self.index:
            yield T(i, *[self._c[c][i] for c in self.columns])


def read_csv(path, *a, delimiter=None, sep=None, **k):
    d = delimiter or sep or (a[0] if a else ",")
    rows = [l.rstrip("\n").split(d) for l in open(path) if l.strip()]
    cols = rows[0]
    return DataFrame({c: [float(r[i]) for r in rows[1:]] for i, c in enumerate(cols)})


module = types.ModuleType("pandas")
module.Series, module.DataFrame, module.read_csv = Series, DataFrame, read_csv
