"""A stand-in for the `torch` module whose tensors hold symbolic scalars.

Tensor = (re, im) pair of numpy object arrays (im is None for non-complex
dtypes), so slicing, broadcasting and .real/.imag keep torch's aliasing.
Concrete elements are ordinary python numbers, symbolic ones are Sym/SBool.
"""
import math
import sys
import types
import itertools
from collections import deque as _deque
import numpy as np
import builtins as _bi
from fractions import Fraction
from . import expr as E
from . import engine
from . import rational
from . import values as V
from .values import Sym, SBool, SCplx, is_sym
from .engine import Unsupported, NonFinite


# ---------------------------------------------------------------- dtypes
class dtype:
    def __init__(self, name, kind):
        self.name = name
        self.kind = kind  # 'b','i','f','c'
        self.is_complex = kind == "c"
        self.is_floating_point = kind == "f"

    def __repr__(self):
        return "torch." + self.name

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        return (getattr, (sys.modules[__name__], self.name))


bool_ = dtype("bool", "b")
uint8 = dtype("uint8", "i")
int8 = dtype("int8", "i")
int16 = dtype("int16", "i")
int32 = dtype("int32", "i")
int64 = dtype("int64", "i")
float16 = dtype("float16", "f")
float32 = dtype("float32", "f")
float64 = dtype("float64", "f")
complex64 = dtype("complex64", "c")
complex128 = dtype("complex128", "c")
_order = [bool_, uint8, int8, int16, int32, int64, float16, float32, float64, complex64, complex128]
_rank = {d: i for i, d in enumerate(_order)}
_default = [float32]

_kindrank = {"b": 0, "i": 1, "f": 2, "c": 3}


def _todtype(d):
    if d is None or isinstance(d, dtype):
        return d
    from . import builtins_shim as B
    if d in (float, B.float_, np.float64):
        return float64
    if d in (int, B.int_, np.int64):
        return int64
    if d in (bool, B.bool_, np.bool_):
        return bool_
    if d in (_bi.complex, B.complex_, np.complex128):
        return complex128
    try:
        dt = np.dtype(d)
    except TypeError:
        raise Unsupported("dtype %r" % (d,))
    return {"b": bool_, "i": int64, "u": int64, "f": float64, "c": complex128}[dt.kind]


def _defc():
    return complex128 if _default[0] is float64 else complex64


def _promote(a, b):
    """tensor-tensor promotion"""
    if a is b:
        return a
    if a.kind == b.kind:
        return a if _rank[a] >= _rank[b] else b
    hi, lo = (a, b) if _kindrank[a.kind] > _kindrank[b.kind] else (b, a)
    if hi.kind == "c" and lo is float64 and hi is complex64:
        return complex128
    return hi


# ---------------------------------------------------------------- elements
def _kind_of(x):
    if isinstance(x, (bool, np.bool_, SBool)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, Sym):
        return "i" if x.is_int else "f"
    if isinstance(x, (_bi.complex, np.complexfloating, SCplx)):
        return "c"
    if isinstance(x, (float, np.floating, Fraction)):
        return "f"
    raise Unsupported("tensor element %r" % type(x))


def _pyel(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def _cast_el(x, kind):
    """cast a real element to kind"""
    x = _pyel(x)
    if kind == "b":
        if isinstance(x, (bool, SBool)):
            return x
        return V.wrap(V.bnode(x))
    if kind == "i":
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, SBool):
            return x._as_num()
        if isinstance(x, int):
            return x
        if isinstance(x, Sym):
            return V.trunc(x)
        if x != x or x in (math.inf, -math.inf):
            raise NonFinite("int of non-finite")
        return int(x)
    # f / c component
    if isinstance(x, Sym):
        return x if not x.is_int else Sym(E.toreal(x.node))
    if isinstance(x, SBool):
        return Sym(E.toreal(V.node(x)))
    return float(x)


def _oarr(shape, fill):
    a = np.empty(shape, dtype=object)
    a[...] = fill
    return a


def _map(f, *arrs):
    out = np.frompyfunc(f, len(arrs), 1)(*arrs)
    if not isinstance(out, np.ndarray):
        o = np.empty((), dtype=object)
        o[()] = out
        return o
    return out


def _wrap0(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    o = np.empty((), dtype=object)
    o[()] = x
    return o


class Size(tuple):
    def numel(self):
        n = 1
        for s in self:
            n *= s
        return n

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __repr__(self):
        return "torch.Size(%s)" % list(self)


class device:
    def __init__(self, t="cpu", index=None):
        self.type = str(t).split(":")[0]

    def __repr__(self):
        return "device(type=%r)" % self.type

    def __eq__(self, o):
        return isinstance(o, device) and o.type == self.type or o == self.type

    def __hash__(self):
        return hash(self.type)


class _TensorMeta(type):
    pass


# ------------------------------------------------ what autograd does not see
# BARRIER[0] is a function applied to every symbolic value that passes an
# operation through which no gradient flows (detach, item, numpy, tensor(tensor),
# no_grad); None: values pass unchanged
BARRIER = [None]
NOGRAD = [0]


def _cutarr(a):
    f = BARRIER[0]
    out = np.empty(a.shape, dtype=object)
    hit = False
    for i in np.ndindex(*a.shape):
        v = a[i]
        if is_sym(v) and not isinstance(v, SBool):
            v, hit = f(v), True
        out[i] = v
    return out if hit else a


def _cut(t):
    f, BARRIER[0] = BARRIER[0], None
    try:
        u = Tensor(t.re, t.im, t.dtype)
    finally:
        BARRIER[0] = f
    u.re, u.im = _cutarr(u.re), None if u.im is None else _cutarr(u.im)
    return u


def _has_tensor(d):
    if isinstance(d, Tensor):
        return True
    return isinstance(d, (list, tuple)) and _bi.any(_has_tensor(x) for x in d)


class Tensor(metaclass=_TensorMeta):
    __array_ufunc__ = None
    __array_priority__ = 1000
    __slots__ = ("re", "im", "dtype", "requires_grad", "grad", "grad_fn", "_extra", "__weakref__")

    def __init__(self, re, im=None, dtype=None):
        if not isinstance(re, np.ndarray):
            re = _wrap0(re)
        self.re = re
        self.im = im if im is None or isinstance(im, np.ndarray) else _wrap0(im)
        self.dtype = dtype or (_default[0] if im is None else _defc())
        if BARRIER[0] is not None and NOGRAD[0]:
            self.re, self.im = _cutarr(self.re), None if self.im is None else _cutarr(self.im)
        self.requires_grad = False
        self.grad = None
        self.grad_fn = None

    # ---------------------------------------------------------- meta
    @property
    def shape(self):
        return Size(self.re.shape)

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    @property
    def ndim(self):
        return self.re.ndim

    def dim(self):
        return self.re.ndim

    ndimension = dim

    def numel(self):
        return self.re.size

    nelement = numel

    @property
    def device(self):
        return device("cpu")

    @property
    def is_cuda(self):
        return False

    @property
    def is_leaf(self):
        return True

    def is_complex(self):
        return self.dtype.kind == "c"

    def is_floating_point(self):
        return self.dtype.kind == "f"

    def is_contiguous(self, *a, **k):
        return True

    def contiguous(self, *a, **k):
        return self

    def element_size(self):
        return 8

    def _new(self, re, im=None, dt=None):
        return Tensor(re, im, dt or self.dtype)

    def _all(self):
        """iterate element values (complex combined)"""
        if self.im is None:
            return [x for x in self.re.ravel()]
        return [_mkc(a, b) for a, b in zip(self.re.ravel(), self.im.ravel())]

    def has_sym(self):
        return _bi.any(is_sym(x) for x in self.re.ravel()) or (
            self.im is not None and _bi.any(is_sym(x) for x in self.im.ravel()))

    def _scalar_value(self):
        if self.re.size != 1:
            raise (RuntimeError if self.re.size == 0 else RuntimeError)(
                "a Tensor with %d elements cannot be converted to Scalar" % self.re.size)
        return self._all()[0]

    def item(self):
        if BARRIER[0] is not None:
            return _cut(self)._scalar_value()
        return self._scalar_value()

    def tolist(self):
        if BARRIER[0] is not None:
            self = _cut(self)
        if self.im is None:
            return self.re.tolist() if self.re.ndim else self.re.item()
        arr = _map(_mkc, self.re, self.im)
        return arr.tolist() if arr.ndim else arr.item()

    def numpy(self, *a, **k):
        if BARRIER[0] is not None:
            self = _cut(self)
        if self.has_sym():
            from . import symnp
            if self.im is None:
                return symnp.wrap_array(self.re)
            return symnp.wrap_array(_map(_mkc, self.re, self.im))
        return self._concrete()

    def _concrete(self):
        """native numpy array of an all-concrete tensor"""
        if self.im is not None:
            return self.re.astype(float) + 1j * self.im.astype(float)
        return self.re.astype({"b": bool, "i": np.int64, "f": float}[self.dtype.kind])

    def __array__(self, dtype=None, copy=None):
        if self.has_sym():
            if self.im is None:
                return self.re.copy()
            return _map(_mkc, self.re, self.im)
        a = self._concrete()
        return a.astype(dtype) if dtype is not None else a

    def detach(self):
        if BARRIER[0] is not None:
            return _cut(self)
        return Tensor(self.re, self.im, self.dtype)

    def detach_(self):
        if BARRIER[0] is not None:
            t = _cut(self)
            self.re, self.im = t.re, t.im
        return self

    def cpu(self, *a, **k):
        return self

    def cuda(self, *a, **k):
        return self

    def clone(self, *a, **k):
        return Tensor(self.re.copy(), None if self.im is None else self.im.copy(), self.dtype)

    def copy_(self, o, *a, **k):
        self[...] = o
        return self

    def requires_grad_(self, flag=True):
        self.requires_grad = flag
        return self

    def retain_grad(self):
        pass

    def backward(self, *a, **k):
        pass

    def register_hook(self, *a, **k):
        pass

    @property
    def data(self):
        if BARRIER[0] is not None:
            return _cut(self)
        return Tensor(self.re, self.im, self.dtype)

    @data.setter
    def data(self, v):
        self.re, self.im, self.dtype = v.re, v.im, v.dtype

    def to(self, *args, **kw):
        d = kw.get("dtype")
        for a in args:
            if isinstance(a, dtype):
                d = a
            elif isinstance(a, Tensor):
                d = a.dtype
            elif isinstance(a, type) or a in (float, int, bool, _bi.complex):
                d = _todtype(a)
        if d is None:
            return self.clone() if kw.get("copy") else self
        return self.type(d)

    def type(self, d=None, **k):
        if d is None:
            return "torch.%sTensor" % {"f": "Double", "i": "Long", "b": "Bool", "c": "ComplexDouble"}[self.dtype.kind]
        if isinstance(d, str):
            d = {"torch.DoubleTensor": float64, "torch.FloatTensor": float32, "torch.LongTensor": int64}[d]
        d = _todtype(d)
        if d is self.dtype:
            return self
        return _astype(self, d)

    def type_as(self, o):
        return self.type(o.dtype)

    def double(self):
        return self.type(float64)

    def float(self):
        return self.type(float32)

    def long(self):
        return self.type(int64)

    def int(self):
        return self.type(int32)

    def bool(self):
        return self.type(bool_)

    def __repr__(self):
        return "tensor(<%s %s>)" % (list(self.shape), self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        if self.re.size == 1 and not self.has_sym():
            try:
                return format(self.item(), spec)
            except (ValueError, TypeError):
                return "<num>"
        return "<tensor>"

    def __deepcopy__(self, memo):
        t = Tensor(self.re.copy(), None if self.im is None else self.im.copy(), self.dtype)
        if type(self) is not Tensor:
            t.__class__ = type(self)
        t.requires_grad = self.requires_grad
        memo[id(self)] = t
        return t

    def __hash__(self):
        return id(self)

    def __len__(self):
        if self.re.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return self.re.shape[0]

    def __iter__(self):
        if self.re.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([self[i] for i in range(self.re.shape[0])])

    def __bool__(self):
        if self.re.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(V.wrap(V.bnode(self.item()))) if not isinstance(self.item(), (_bi.complex, SCplx)) else bool(self.item())

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.dtype.kind not in "ib":
            raise TypeError("only integer tensors of a single element can be converted to an index")
        v = self.item()
        return v.__index__() if not isinstance(v, bool) else int(v)

    def __complex__(self):
        return _bi.complex(self.item())

    def __contains__(self, x):
        return bool(any_((self == x)))

    # ---------------------------------------------------------- real/imag
    @property
    def real(self):
        if self.im is None:
            return self
        return Tensor(self.re, None, float64 if self.dtype is complex128 else float32)

    @real.setter
    def real(self, v):
        v = _t(v)
        if self.im is None:
            self[...] = v
        else:
            self.re[...] = _own(v.re, self.re)

    @property
    def imag(self):
        if self.im is None:
            raise RuntimeError("imag is not implemented for tensors with non-complex dtypes.")
        return Tensor(self.im, None, float64 if self.dtype is complex128 else float32)

    @imag.setter
    def imag(self, v):
        if self.im is None:
            raise RuntimeError("imag is not implemented for tensors with non-complex dtypes.")
        v = _t(v)
        self.im[...] = _own(v.re, self.im)

    # ---------------------------------------------------------- indexing
    def _idx(self, key):
        """-> (numpy index, symbolic mask tensor or None)"""
        if not isinstance(key, tuple):
            if isinstance(key, list) and _bi.any(isinstance(k, (slice, Tensor)) or k is None for k in key):
                key = tuple(key)
            else:
                key = (key,)
        out = []
        for k in key:
            out.append(_idx1(k))
        return tuple(out)

    def _symmask(self, key):
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, Tensor) and key.dtype.kind == "b" and key.has_sym():
            return key
        if isinstance(key, np.ndarray) and key.dtype == object:
            return _t(key)
        return None

    def __getitem__(self, key):
        m = self._symmask(key)
        if m is not None and m.re.shape == self.re.shape:
            return LazySel(Tensor(self.re.copy(), None if self.im is None else self.im.copy(), self.dtype), m)
        i = self._idx(key)
        try:
            re = self.re[i]
            im = None if self.im is None else self.im[i]
        except IndexError as e:
            raise IndexError(str(e))
        if not isinstance(re, np.ndarray):
            # element access: keep aliasing with a 0-d view
            try:
                re = self.re[i + (Ellipsis,)]
                im = None if self.im is None else self.im[i + (Ellipsis,)]
            except IndexError:
                re = _wrap0(re)
                im = None if im is None else _wrap0(im)
        return Tensor(re, im, self.dtype)

    def __setitem__(self, key, v):
        m = self._symmask(key)
        if isinstance(v, LazySel) and m is not None and v.same(m) and self.re.shape == v.base.re.shape:
            return self._assign((Ellipsis,), where(m, v.base, self))
        v = _t(v, like=self)
        if m is not None:
            return self._masked_set(m, v)
        i = self._idx(key)
        self._assign(i, v)

    def _assign(self, i, v):
        if self.dtype.kind == "c":
            if v.re.ndim == 0:
                self.re[i] = _cast_el(v.re[()], "f")
                self.im[i] = _cast_el(v.im[()], "f") if v.im is not None else 0.0
            else:
                tgt = self.re[i]
                vr, vi = _fit(v.re, tgt.shape), None if v.im is None else _fit(v.im, tgt.shape)
                self.re[i] = _map(lambda x: _cast_el(x, "f"), vr)
                self.im[i] = _map(lambda x: _cast_el(x, "f"), vi) if vi is not None else 0.0
        else:
            k = self.dtype.kind
            if v.re.ndim == 0:
                self.re[i] = _cast_el(v.re[()], k)
            else:
                tgt = self.re[i]
                shp = tgt.shape if isinstance(tgt, np.ndarray) else ()
                vr = _fit(v.re, shp)
                self.re[i] = _map(lambda x: _cast_el(x, k), vr) if shp else _cast_el(vr.reshape(-1)[0], k)

    def _masked_set(self, m, v):
        nd = m.re.ndim
        if tuple(self.re.shape[:nd]) != tuple(m.re.shape):
            raise IndexError("The shape of the mask does not match the indexed tensor")
        trail = self.re.shape[nd:]
        if v.re.ndim > len(trail) and not (v.re.ndim == len(trail) + 1 and v.re.shape[0] == 1):
            # value depends on the number of selected entries: fork on the mask
            mm = _map(lambda x: bool(x), m.re).astype(bool)
            return self._assign((mm,), v)
        mask = m.re.reshape(m.re.shape + (1,) * len(trail))
        vr = v.re.reshape(v.re.shape[-len(trail):]) if v.re.ndim > len(trail) and len(trail) else v.re
        vi = None
        if v.im is not None:
            vi = v.im.reshape(vr.shape)
        vb = np.broadcast_to(vr, self.re.shape)
        k = "f" if self.dtype.kind == "c" else self.dtype.kind
        self.re[...] = _map(lambda c, a, b: V.ite(c, _cast_el(a, k), b), mask, vb, self.re)
        if self.im is not None:
            ib = np.broadcast_to(vi if vi is not None else _oarr((), 0.0), self.im.shape)
            self.im[...] = _map(lambda c, a, b: V.ite(c, _cast_el(a, k), b), mask, ib, self.im)

    # ---------------------------------------------------------- arithmetic
    def __add__(self, o): return _bin(self, o, "add")
    def __radd__(self, o): return _bin(o, self, "add")
    def __sub__(self, o): return _bin(self, o, "sub")
    def __rsub__(self, o): return _bin(o, self, "sub")
    def __mul__(self, o): return _bin(self, o, "mul")
    def __rmul__(self, o): return _bin(o, self, "mul")
    def __truediv__(self, o): return _bin(self, o, "div")
    def __rtruediv__(self, o): return _bin(o, self, "div")
    def __floordiv__(self, o): return _real2(self, o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return _real2(o, self, lambda a, b: a // b)
    def __mod__(self, o): return _real2(self, o, lambda a, b: a % b)
    def __rmod__(self, o): return _real2(o, self, lambda a, b: a % b)
    def __pow__(self, o): return pow(self, o)
    def __rpow__(self, o): return pow(o, self)
    def __neg__(self): return self._new(-self.re, None if self.im is None else -self.im)
    def __pos__(self): return self
    def __abs__(self): return abs(self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def _inplace(self, r):
        if r.im is not None and self.im is None:
            raise RuntimeError("result type Complex can't be cast to the desired output type")
        if r.dtype.kind == "f" and self.dtype.kind in "ib":
            raise RuntimeError("result type Float can't be cast to the desired output type")
        if r.re.shape != self.re.shape:
            raise RuntimeError("output with shape %s doesn't match the broadcast shape %s" % (list(self.shape), list(r.shape)))
        self.re[...] = r.re
        if self.im is not None:
            self.im[...] = r.im if r.im is not None else 0.0
        return self

    def __iadd__(self, o): return self._inplace(_bin(self, o, "add"))
    def __isub__(self, o): return self._inplace(_bin(self, o, "sub"))
    def __imul__(self, o): return self._inplace(_bin(self, o, "mul"))
    def __itruediv__(self, o): return self._inplace(_bin(self, o, "div"))
    def __ipow__(self, o): return self._inplace(pow(self, o))

    def add_(self, o, alpha=1): return self._inplace(_bin(self, _bin(o, alpha, "mul") if alpha != 1 else o, "add"))
    def sub_(self, o, alpha=1): return self._inplace(_bin(self, _bin(o, alpha, "mul") if alpha != 1 else o, "sub"))
    def mul_(self, o): return self._inplace(_bin(self, o, "mul"))
    def div_(self, o): return self._inplace(_bin(self, o, "div"))
    def clamp_(self, min=None, max=None): return self._inplace(clamp(self, min, max))
    clip_ = clamp_
    def abs_(self): return self._inplace(abs(self))
    def neg_(self): return self._inplace(-self)

    def zero_(self):
        self[...] = 0
        return self

    def fill_(self, v):
        self[...] = v
        return self

    def uniform_(self, a=0.0, b=1.0):
        t = _rng("uniform", self.re.shape, a, b)
        self.re[...] = t
        return self

    def normal_(self, mean=0.0, std=1.0):
        t = _rng("randn", self.re.shape)
        self.re[...] = _map(lambda x: x * std + mean, t)
        return self

    # comparisons
    def __lt__(self, o): return _cmp(self, o, lambda a, b: a < b)
    def __le__(self, o): return _cmp(self, o, lambda a, b: a <= b)
    def __gt__(self, o): return _cmp(self, o, lambda a, b: a > b)
    def __ge__(self, o): return _cmp(self, o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return _eq(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return logical_not(_eq(self, o))

    def __and__(self, o): return logical_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return logical_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return logical_xor(self, o)
    __rxor__ = __xor__
    def __invert__(self): return logical_not(self)

    # shape methods
    def reshape(self, *s):
        s = _shape(s)
        return self._new(_reshape(self.re, s), None if self.im is None else _reshape(self.im, s))

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], dtype):
            return self.type(s[0])
        return self.reshape(*s)

    def view_as(self, o): return self.reshape(o.shape)
    reshape_as = view_as
    def flatten(self, start_dim=0, end_dim=-1): return flatten(self, start_dim, end_dim)
    def ravel(self): return self.reshape(-1)

    def squeeze(self, dim=None):
        return squeeze(self, dim)

    def unsqueeze(self, dim):
        return unsqueeze(self, dim)

    def permute(self, *d):
        d = _shape(d)
        return self._new(self.re.transpose(d), None if self.im is None else self.im.transpose(d))

    def transpose(self, a, b):
        return transpose(self, a, b)

    swapaxes = transpose
    swapdims = transpose

    def t(self):
        return self.T

    @property
    def T(self):
        return self._new(self.re.T, None if self.im is None else self.im.T)

    @property
    def mT(self):
        return self.transpose(-1, -2)

    @property
    def H(self):
        return conj(self.transpose(-1, -2))

    def expand(self, *s):
        s = list(_shape(s))
        off = len(s) - self.re.ndim
        for i in range(len(s)):
            if s[i] == -1:
                s[i] = self.re.shape[i - off]
        return self._new(np.broadcast_to(self.re, s), None if self.im is None else np.broadcast_to(self.im, s))

    def expand_as(self, o): return self.expand(*o.shape)
    def broadcast_to(self, *s): return self.expand(*_shape(s))

    def repeat(self, *s):
        s = _shape(s)
        return self._new(np.tile(self.re, s), None if self.im is None else np.tile(self.im, s))

    tile = repeat

    def new_zeros(self, *s, **k): return zeros(*s, dtype=self.dtype)
    def new_ones(self, *s, **k): return ones(*s, dtype=self.dtype)
    def new_tensor(self, d, **k): return tensor(d, dtype=self.dtype)

    def item_(self):
        return self.item()


def _fit(a, shp):
    """broadcast a to shp allowing leading singleton dims like torch"""
    while a.ndim > len(shp) and a.shape[0] == 1:
        a = a[0]
    try:
        return np.broadcast_to(a, shp)
    except ValueError:
        raise RuntimeError("shape mismatch: value tensor of shape %s cannot be broadcast to indexing result of shape %s" % (list(a.shape), list(shp)))


def _own(src, dst):
    if src is dst:
        return src
    s = _fit(src, dst.shape)
    return _map(lambda x: _cast_el(x, "f"), s) if s.size else s


def _mkc(a, b):
    if is_sym(a) or is_sym(b):
        return SCplx(a, b)
    return _bi.complex(float(a), float(b))


def _shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list, Size)):
        s = s[0]
    out = []
    for x in s:
        if isinstance(x, Tensor):
            x = x.item()
        if isinstance(x, Sym):
            x = x.__index__()
        if isinstance(x, bool) or not isinstance(x, (int, np.integer)):
            raise TypeError("shape must be ints, not %s" % type(x).__name__)
        out.append(int(x))
    return tuple(out)


def _reshape(a, s):
    try:
        return a.reshape(s)
    except ValueError:
        raise RuntimeError("shape '%s' is invalid for input of size %d" % (list(s), a.size))


def _idx1(k):
    if isinstance(k, Tensor):
        if k.dtype.kind == "b":
            a = _map(lambda x: bool(x), k.re)
            return a.astype(bool) if a.ndim else bool(a[()])
        if k.dtype.kind != "i":
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        a = _map(lambda x: x.__index__() if not isinstance(x, int) else x, k.re)
        return a.astype(np.int64) if a.ndim else int(a[()])
    if isinstance(k, slice):
        f = lambda x: None if x is None else (x.item() if isinstance(x, Tensor) else x)
        g = lambda x: x if x is None else _ix(x)
        st = g(f(k.step))
        if st is not None and st < 0:
            raise ValueError("step must be greater than zero")
        return slice(g(f(k.start)), g(f(k.stop)), st)
    if isinstance(k, (list, tuple, range)):
        if len(k) and isinstance(k[0], (bool, SBool)):
            return np.array([bool(x) for x in k])
        if len(k) and isinstance(k[0], (list, tuple)):
            return np.array([[_ix(y) for y in x] for x in k])
        return np.array([_ix(x) for x in k], dtype=np.int64)
    if isinstance(k, np.ndarray):
        if k.dtype == object:
            if k.size and isinstance(k.ravel()[0], (bool, SBool)):
                return _map(lambda x: bool(x), k).astype(bool)
            return _map(lambda x: _ix(x), k).astype(np.int64)
        return k
    if k is None or k is Ellipsis:
        return k
    if isinstance(k, (bool, np.bool_)):
        return k
    return _ix(k)


def _ix(x):
    if isinstance(x, Tensor):
        x = x.item()
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, Sym):
        return x.__index__()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (float, np.floating)):
        raise TypeError("only integers, slices (`:`), ellipsis (`...`), None and long or byte Variables are valid indices (got float)")
    raise TypeError("invalid index %r" % type(x))


# ---------------------------------------------------------------- construction
def _flat(d):
    """nested data -> (object ndarray, kind)"""
    if isinstance(d, Tensor):
        if d.im is None:
            return d.re, d.dtype.kind
        return _map(_mkc, d.re, d.im), "c"
    if isinstance(d, np.ndarray):
        if d.dtype == object:
            ks = [_kind_of(x) for x in d.ravel()]
            k = _bi.max(ks, key=lambda q: _kindrank[q]) if ks else "f"
            return np.asarray(d), k
        a = np.empty(d.shape, dtype=object)
        flat = d.ravel().tolist()
        b = a.reshape(-1)
        for i, x in enumerate(flat):
            b[i] = x
        return a, {"b": "b", "i": "i", "u": "i", "f": "f", "c": "c"}[d.dtype.kind]
    if isinstance(d, (list, tuple, range, _deque)):
        if len(d) == 0:
            return np.empty((0,), dtype=object), "f"
        subs = [_flat(x) for x in d]
        shp = subs[0][0].shape
        for s, _ in subs:
            if s.shape != shp:
                raise ValueError("expected sequence of length %s at dim 1 (got %s)" % (list(shp), list(s.shape)))
        a = np.empty((len(d),) + shp, dtype=object)
        for i, (s, _) in enumerate(subs):
            a[i] = s if shp else s[()]
        k = _bi.max((k for _, k in subs), key=lambda q: _kindrank[q])
        return a, k
    k = _kind_of(d)
    a = np.empty((), dtype=object)
    a[()] = _pyel(d)
    return a, k


def _from_arr(a, kind, dt):
    if dt is None:
        dt = {"b": bool_, "i": int64, "f": _default[0], "c": _defc()}[kind]
    if dt.kind == "c":
        return Tensor(_map(lambda x: _cast_el(V.cre(x), "f"), a), _map(lambda x: _cast_el(V.cim(x), "f"), a), dt)
    if kind == "c":
        raise TypeError("can't convert complex to float")
    return Tensor(_map(lambda x: _cast_el(x, dt.kind), a), None, dt)


def _fix_empty(t):
    return t


def tensor(data, dtype=None, device=None, requires_grad=False, **k):
    if BARRIER[0] is not None and _has_tensor(data):
        f, BARRIER[0] = BARRIER[0], None
        try:
            t = tensor(data, dtype=dtype)
        finally:
            BARRIER[0] = f
        t = _cut(t)
        t.requires_grad = requires_grad
        return t
    a, kind = _flat(data)
    if a.size == 0:
        return Tensor(a.copy(), None, _todtype(dtype) or _default[0])
    if isinstance(data, Tensor) and dtype is None:
        return data.clone()
    if isinstance(data, np.ndarray) and dtype is None and data.dtype == np.float64:
        dtype = float64
    if isinstance(data, np.ndarray) and dtype is None and data.dtype == np.complex128:
        dtype = complex128
    if isinstance(data, (np.floating,)) and dtype is None:
        dtype = float64
    t = _from_arr(a, kind, _todtype(dtype))
    t.requires_grad = requires_grad
    return t


def as_tensor(data, dtype=None, device=None):
    if isinstance(data, Tensor):
        return data if dtype is None else data.type(dtype)
    return tensor(data, dtype=dtype)


asarray = as_tensor


def from_numpy(a):
    return tensor(a)


class LazySel:
    """t[mask] with a symbolic mask of t's shape: element-wise total
    functions are applied to all of t, so that t[mask] = f(t[mask]) needs no
    case split; anything else splits on the mask"""
    def __init__(self, base, mask):
        self.base, self.mask = base, mask
        self._f = None

    def same(self, m):
        return self.mask.re.shape == m.re.shape and _bi.all(
            a is b or (is_sym(a) and is_sym(b) and V.bnode(a) is V.bnode(b)) or (not is_sym(a) and not is_sym(b) and a == b)
            for a, b in zip(self.mask.re.ravel(), m.re.ravel()))

    def force(self):
        if self._f is None:
            mm = _map(lambda x: bool(x), self.mask.re).astype(bool)
            b = self.base
            self._f = Tensor(b.re[mm], None if b.im is None else b.im[mm], b.dtype)
        return self._f

    def _op(self, o, f):
        if isinstance(o, LazySel) and self.same(o.mask):
            return LazySel(f(self.base, o.base), self.mask)
        if isinstance(o, (_bi.int, _bi.float, Sym)) or (isinstance(o, Tensor) and o.re.ndim == 0):
            return LazySel(f(self.base, o), self.mask)
        return f(self.force(), o)

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
    def __neg__(self): return LazySel(-self.base, self.mask)
    def __lt__(self, o): return self._op(o, lambda a, b: a < b)
    def __le__(self, o): return self._op(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._op(o, lambda a, b: a > b)
    def __ge__(self, o): return self._op(o, lambda a, b: a >= b)
    def __abs__(self): return LazySel(abs(self.base), self.mask)
    def sign(self): return LazySel(sign(self.base), self.mask)
    abs = __abs__
    def clip(self, *a, **k): return LazySel(self.base.clip(*a, **k), self.mask)
    clamp = clip

    @property
    def real(self): return LazySel(self.base.real, self.mask)

    @property
    def imag(self): return LazySel(self.base.imag, self.mask)

    def __truediv__(self, o):
        if isinstance(o, (_bi.int, _bi.float)) and o != 0:
            return LazySel(self.base / o, self.mask)
        return self.force() / o

    def __rtruediv__(self, o): return o / self.force()
    def __pow__(self, o): return self.force() ** o
    def __len__(self): return len(self.force())
    def __iter__(self): return iter(self.force())
    def __getitem__(self, k): return self.force()[k]
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)


def _lazy1(f):
    def g(t, *a, **k):
        if isinstance(t, LazySel):
            return LazySel(f(t.base, *a, **k), t.mask)
        return f(t, *a, **k)
    g.__name__ = f.__name__
    return g


def _t(x, like=None):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, LazySel):
        return x.force()
    return tensor(x)


def _astype(t, d):
    if d.kind == "c":
        if t.im is None:
            return Tensor(_map(lambda x: _cast_el(x, "f"), t.re), _oarr(t.re.shape, 0.0), d)
        return Tensor(t.re.copy(), t.im.copy(), d)
    return Tensor(_map(lambda x: _cast_el(x, d.kind), t.re) if t.re.size else t.re.copy(), None, d)


def _full(shape, v, dt):
    dt = _todtype(dt)
    if dt is None:
        k = _kind_of(v)
        dt = {"b": bool_, "i": int64, "f": _default[0], "c": _defc()}[k]
    if dt.kind == "c":
        return Tensor(_oarr(shape, _cast_el(V.cre(v), "f")), _oarr(shape, _cast_el(V.cim(v), "f")), dt)
    return Tensor(_oarr(shape, _cast_el(v, dt.kind)), None, dt)


def zeros(*s, dtype=None, **k):
    if "size" in k:
        s = (k["size"],)
    return _full(_shape(s), 0.0, _todtype(dtype) or _default[0])


def ones(*s, dtype=None, **k):
    if "size" in k:
        s = (k["size"],)
    return _full(_shape(s), 1.0, _todtype(dtype) or _default[0])


empty = zeros


def full(s, v, dtype=None, **k):
    if isinstance(s, int):
        s = (s,)
    if isinstance(v, Tensor):
        v = v.item()
    return _full(_shape((s,)), v, dtype)


def zeros_like(t, dtype=None, **k):
    return _full(t.re.shape, 0.0, _todtype(dtype) or t.dtype)


def ones_like(t, dtype=None, **k):
    return _full(t.re.shape, 1.0, _todtype(dtype) or t.dtype)


empty_like = zeros_like


def full_like(t, v, dtype=None, **k):
    return _full(t.re.shape, v, _todtype(dtype) or t.dtype)


def eye(n, m=None, dtype=None, **k):
    n = _shape((n,))[0]
    m = n if m is None else _shape((m,))[0]
    t = zeros(n, m, dtype=dtype)
    for i in range(_bi.min(n, m)):
        t.re[i, i] = 1.0 if t.dtype.kind in "fc" else 1
    return t


def _num(x):
    if isinstance(x, Tensor):
        x = x.item()
    return _pyel(x)


def arange(*args, dtype=None, **k):
    start = k.get("start", 0)
    step = k.get("step", 1)
    end = k.get("end")
    if len(args) == 1:
        end = args[0]
    elif len(args) >= 2:
        start, end = args[0], args[1]
        if len(args) > 2:
            step = args[2]
    start, end, step = _num(start), _num(end), _num(step)
    n = (end - start) / step
    if isinstance(n, Sym):
        n = -(V.wrap(E.floor(V.node(-n))))
        n = n.__index__()
    else:
        n = math.ceil(n)
    if n < 0:
        raise RuntimeError("upper bound and larger bound inconsistent with step sign")
    vals = [start + i * step for i in range(n)]
    if dtype is None:
        fl = _bi.any(_kind_of(x) == "f" for x in (start, end, step))
        dtype = _default[0] if fl else int64
    dt = _todtype(dtype)
    a = np.empty((n,), dtype=object)
    for i, v in enumerate(vals):
        a[i] = _cast_el(v, dt.kind)
    return Tensor(a, None, dt)


def linspace(start, end, steps=100, dtype=None, **k):
    start, end = _num(start), _num(end)
    n = _shape((_num(steps),))[0]
    a = np.empty((n,), dtype=object)
    for i in range(n):
        if n == 1:
            v = start
        elif i == n - 1:
            v = end
        elif is_sym(start) or is_sym(end):
            v = start + (end - start) * Fraction(i, n - 1)
        else:
            v = start + (end - start) * i / (n - 1)
        a[i] = _cast_el(v, "f")
    t = Tensor(a, None, _default[0])
    return t if dtype is None else t.type(dtype)


def logspace(start, end, steps=100, base=10.0, **k):
    return pow(base, linspace(start, end, steps))


def meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [_t(x) for x in ts]
    if _bi.any(t.re.ndim > 1 for t in ts):
        raise RuntimeError("torch.meshgrid: Expected 0D or 1D tensor")
    ts = [t.reshape(1) if t.re.ndim == 0 else t for t in ts]
    n = len(ts)
    shp = [t.re.shape[0] for t in ts]
    out = []
    for i, t in enumerate(ts):
        v = [1] * n
        v[i] = shp[i]
        r = np.broadcast_to(t.re.reshape(v), shp)
        im = None if t.im is None else np.broadcast_to(t.im.reshape(v), shp)
        if indexing == "xy" and n >= 2:
            r = r.swapaxes(0, 1)
            im = None if im is None else im.swapaxes(0, 1)
        out.append(Tensor(r, im, t.dtype))
    return tuple(out)


def complex(re, im):
    re, im = _t(re), _t(im)
    a, b = np.broadcast_arrays(re.re, im.re)
    return Tensor(a.copy(), b.copy(), complex128 if re.dtype is float64 else complex64)


def polar(r, th):
    return complex(r * cos(th), r * sin(th))


def view_as_real(t):
    return stack([t.real, t.imag], dim=-1)


def view_as_complex(t):
    return Tensor(t.re[..., 0], t.re[..., 1], complex128)


# ---------------------------------------------------------------- elementwise
def _pair(a, b):
    """-> tensors with torch's result dtype"""
    ta, tb = isinstance(a, Tensor), isinstance(b, Tensor)
    A, B = _t(a), _t(b)
    if ta and tb:
        if A.re.ndim == 0 and B.re.ndim > 0 and _kindrank[A.dtype.kind] <= _kindrank[B.dtype.kind]:
            dt = B.dtype
        elif B.re.ndim == 0 and A.re.ndim > 0 and _kindrank[B.dtype.kind] <= _kindrank[A.dtype.kind]:
            dt = A.dtype
        else:
            dt = _promote(A.dtype, B.dtype)
    elif ta and not isinstance(b, np.ndarray):
        dt = A.dtype if _kindrank[B.dtype.kind] <= _kindrank[A.dtype.kind] else (
            B.dtype if B.dtype.kind != "c" else (complex128 if A.dtype is float64 else _defc()))
    elif tb and not isinstance(a, np.ndarray):
        dt = B.dtype if _kindrank[A.dtype.kind] <= _kindrank[B.dtype.kind] else (
            A.dtype if A.dtype.kind != "c" else (complex128 if B.dtype is float64 else _defc()))
    else:
        dt = _promote(A.dtype, B.dtype)
    return A, B, dt


def _bshape(a, b):
    try:
        return np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        raise RuntimeError("The size of tensor a %s must match the size of tensor b %s" % (list(a.shape), list(b.shape)))


_radd = np.frompyfunc(V.radd, 2, 1)
_rsub = np.frompyfunc(V.rsub, 2, 1)
_rmul = np.frompyfunc(V.rmul, 2, 1)
_rdiv = np.frompyfunc(V.rdiv, 2, 1)


def _o(x):
    if isinstance(x, np.ndarray):
        return x
    return _wrap0(x)


def _bin(a, b, op):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return NotImplemented
    if isinstance(b, LazySel) and not isinstance(a, LazySel):
        return NotImplemented
    A, B, dt = _pair(a, b)
    _bshape(A.re, B.re)
    if op == "div" and dt.kind in "ib":
        dt = _default[0]
    if dt.kind == "b" and op != "div":
        if op == "sub":
            raise RuntimeError("Subtraction, the `-` operator, with two bool tensors is not supported.")
        if op == "add":
            return logical_or(A, B)
        return logical_and(A, B)
    if dt.kind != "c":
        f = {"add": _radd, "sub": _rsub, "mul": _rmul, "div": _rdiv}[op]
        return Tensor(_o(f(A.re, B.re)), None, dt)
    ai, bi = A.im, B.im
    if op in ("add", "sub"):
        f = _radd if op == "add" else _rsub
        z = 0.0
        re = _o(f(A.re, B.re))
        im = _o(f(ai if ai is not None else z, bi if bi is not None else z))
        if im.shape != re.shape:
            im = np.broadcast_to(im, re.shape).copy()
        return Tensor(re, im, dt)
    if op == "mul":
        if ai is None:
            return Tensor(_o(_rmul(A.re, B.re)), _o(_rmul(A.re, bi)), dt)
        if bi is None:
            return Tensor(_o(_rmul(A.re, B.re)), _o(_rmul(ai, B.re)), dt)
        return Tensor(_o(_rsub(_rmul(A.re, B.re), _rmul(ai, bi))),
                      _o(_radd(_rmul(A.re, bi), _rmul(ai, B.re))), dt)
    # complex division
    if bi is None:
        re = _o(_rdiv(A.re, B.re))
        im = _o(_rdiv(ai, B.re))
        return Tensor(re, im, dt)
    if ai is None:
        ai = _oarr(A.re.shape, 0.0)

    def dv(a, b, c, d):
        r = SCplx(a, b) / SCplx(c, d)
        return r
    out = _map(dv, *np.broadcast_arrays(A.re, ai, B.re, bi))
    return Tensor(_map(lambda z: z.re, out), _map(lambda z: z.im, out), dt)


def _real2(a, b, f):
    A, B, dt = _pair(a, b)
    _bshape(A.re, B.re)
    return Tensor(_o(np.frompyfunc(f, 2, 1)(A.re, B.re)), None, dt)


def _cmp(a, b, f):
    A, B, dt = _pair(a, b)
    if dt.kind == "c":
        raise RuntimeError("comparison is not implemented for complex tensors")
    _bshape(A.re, B.re)
    return Tensor(_o(np.frompyfunc(f, 2, 1)(A.re, B.re)), None, bool_)


def _eq(a, b):
    A, B, dt = _pair(a, b)
    try:
        _bshape(A.re, B.re)
    except RuntimeError:
        raise
    r = np.frompyfunc(lambda x, y: _b(x == y), 2, 1)(A.re, B.re)
    r = _o(r)
    if dt.kind == "c":
        r2 = _o(np.frompyfunc(lambda x, y: _b(x == y), 2, 1)(
            A.im if A.im is not None else _oarr(A.re.shape, 0.0),
            B.im if B.im is not None else _oarr(B.re.shape, 0.0)))
        r = _map(V.sand, r, r2)
    return Tensor(r, None, bool_)


def _b(x):
    if isinstance(x, np.bool_):
        return bool(x)
    return x


def add(a, b, alpha=1): return _bin(a, b if alpha == 1 else _bin(b, alpha, "mul"), "add")
def sub(a, b, alpha=1): return _bin(a, b if alpha == 1 else _bin(b, alpha, "mul"), "sub")
subtract = sub
def mul(a, b): return _bin(a, b, "mul")
multiply = mul


def div(a, b, rounding_mode=None):
    r = _bin(a, b, "div")
    if rounding_mode == "floor":
        return floor(r)
    if rounding_mode == "trunc":
        return trunc(r)
    return r


divide = true_divide = div
def floor_divide(a, b): return _t(a) // b
def remainder(a, b): return _t(a) % b
def neg(a): return -_t(a)
negative = neg
def lt(a, b): return _t(a) < b
def le(a, b): return _t(a) <= b
def gt(a, b): return _t(a) > b
def ge(a, b): return _t(a) >= b
def eq(a, b): return _t(a) == b
def ne(a, b): return _t(a) != b
less, less_equal, greater, greater_equal, not_equal = lt, le, gt, ge, ne
def reciprocal(a): return 1.0 / _t(a)


def pow(a, e):
    if isinstance(e, Tensor) and e.re.ndim == 0 and not isinstance(a, Tensor):
        e2 = e.item()
        return Tensor(_wrap0(V.power(a, e2)), None, _default[0])
    A, B, dt = _pair(a, e)
    if A.im is not None:
        ev = B.item() if B.re.size == 1 else None
        if ev is None:
            raise Unsupported("complex pow with tensor exponent")
        ev = V.simp(ev)
        if isinstance(ev, float) and ev == 0.5:
            return sqrt(A)
        if isinstance(ev, (int, float)) and float(ev).is_integer():
            out = _map(lambda x, y: SCplx(x, y) ** int(ev), A.re, A.im)
            return Tensor(_map(lambda z: z.re, out), _map(lambda z: z.im, out), A.dtype)
        raise Unsupported("complex pow")

    def f(x, y):
        try:
            return V.power(x, y)
        except ZeroDivisionError:
            raise NonFinite("0 to a negative power")
    if not is_sym(e) and isinstance(e, (int, float)) and not isinstance(e, Tensor):
        return Tensor(_map(lambda x: f(x, e), A.re), None, dt)
    return Tensor(_o(np.frompyfunc(f, 2, 1)(A.re, B.re)), None, dt)


def square(a):
    a = _t(a)
    return a * a


def _un(f):
    def g(t, *a, **k):
        t = _t(t)
        if t.im is not None:
            raise Unsupported("complex elementwise function")
        return Tensor(_map(f, t.re), None, t.dtype if t.dtype.kind == "f" else _default[0])
    return g


def _rs(x):
    return V.sqrt(x)


def csqrt(a, b):
    """principal complex square root of a+ib"""
    if not is_sym(a) and not is_sym(b):
        import cmath
        z = cmath.sqrt(complex_(a, b))
        return SCplx(z.real, z.imag)
    if V.zero(b):
        if engine.ctx().algebra and is_sym(a):
            r = rational.croot(E.toreal(V.node(a)), E.const(0))
            if r is not None:
                return SCplx(V.wrap(r[0]), V.wrap(r[1]))
        if bool(a >= 0):
            return SCplx(V.sqrt(a), 0.0)
        return SCplx(0.0, V.sqrt(-a))
    an, bn = E.toreal(V.node(a)), E.toreal(V.node(b))
    if engine.ctx().algebra:
        r = rational.croot(an, bn)
        if r is not None:
            return SCplx(V.wrap(r[0]), V.wrap(r[1]))
    p = Sym(E.uf("csqrt_re", an, bn))
    q = Sym(E.uf("csqrt_im", an, bn))
    c = engine.ctx()
    # defining equations of the principal root
    c.define(V.bnode(p * p - q * q == a))
    c.define(V.bnode(2 * p * q == b))
    c.define(V.bnode(p >= 0))
    c.define(V.bnode(V.sor(p > 0, q >= 0)))
    return SCplx(p, q)


complex_ = __builtins__["complex"] if isinstance(__builtins__, dict) else __builtins__.complex


def sqrt(t, **k):
    t = _t(t)
    if t.im is not None:
        out = _map(csqrt, t.re, t.im)
        return Tensor(_map(lambda z: z.re, out), _map(lambda z: z.im, out), t.dtype)
    return Tensor(_map(_rs, t.re), None, t.dtype if t.dtype.kind == "f" else _default[0])


rsqrt = lambda t: 1.0 / sqrt(t)


def _cexp(a, b):
    m = V.fn("exp", a) if not V.zero(a) else 1.0
    return SCplx(V.rmul(m, V.fn("cos", b)), V.rmul(m, V.fn("sin", b)))


def exp(t, **k):
    t = _t(t)
    if t.im is not None:
        out = _map(_cexp, t.re, t.im)
        return Tensor(_map(lambda z: z.re, out), _map(lambda z: z.im, out), t.dtype)
    return Tensor(_map(lambda x: V.fn("exp", x), t.re), None, t.dtype if t.dtype.kind == "f" else _default[0])


sin = _un(lambda x: V.fn("sin", x))
cos = _un(lambda x: V.fn("cos", x))
tanh = _un(lambda x: V.fn("tanh", x))
log = _un(lambda x: V.fn("log", x))
log10 = _un(lambda x: V.fn("log10", x))
sigmoid = _un(lambda x: V.fn("sigmoid", x))
relu = lambda t, **k: clamp(t, min=0.0)


def tan(t):
    return sin(t) / cos(t)


def _flr(x):
    if isinstance(x, Sym):
        return x.floor()
    return float(math.floor(x)) if isinstance(x, float) else x


def _cei(x):
    if isinstance(x, Sym):
        return x.ceil()
    return float(math.ceil(x)) if isinstance(x, float) else x


def floor(t): t = _t(t); return Tensor(_map(_flr, t.re), None, t.dtype)
def ceil(t): t = _t(t); return Tensor(_map(_cei, t.re), None, t.dtype)


def trunc(t):
    t = _t(t)
    return Tensor(_map(lambda x: _cast_el(_cast_el(x, "i"), t.dtype.kind), t.re), None, t.dtype)


fix = trunc


def round(t, decimals=0):
    t = _t(t)
    return Tensor(_map(lambda x: V.round_(x, decimals) if isinstance(x, Sym) else __builtins_round(x, decimals), t.re), None, t.dtype)


import builtins as _bi
__builtins_round = _bi.round
_globals_round = _bi.round


def abs(t):
    t = _t(t)
    if t.im is not None:
        return Tensor(_map(lambda a, b: _cabs(a, b), t.re, t.im), None, float64 if t.dtype is complex128 else float32)
    return Tensor(_map(lambda x: _bi.abs(x), t.re), None, t.dtype)


absolute = abs


def _cabs(a, b):
    if V.zero(b):
        return _bi.abs(a)
    if V.zero(a):
        return _bi.abs(b)
    if not is_sym(a) and not is_sym(b):
        return math.hypot(a, b)
    return V.sqrt(V.radd(V.rmul(a, a), V.rmul(b, b)))


def _sgn(x):
    if isinstance(x, Sym):
        return V.ite(x > 0, 1.0, V.ite(x < 0, -1.0, 0.0))
    return float((x > 0) - (x < 0))


def sign(t): t = _t(t); return Tensor(_map(lambda x: _cast_el(_sgn(x), t.dtype.kind), t.re), None, t.dtype)


sgn = sign


def conj(t):
    t = _t(t)
    if t.im is None:
        return t
    return Tensor(t.re, -t.im, t.dtype)


resolve_conj = lambda t: t
conj_physical = conj


def real(t): return _t(t).real
def imag(t): return _t(t).imag
def is_complex(t): return t.is_complex()
def is_floating_point(t): return t.is_floating_point()


def angle(t):
    t = _t(t)
    if t.has_sym():
        raise Unsupported("angle of symbolic complex")
    return tensor(np.angle(t._concrete()))


def _nan1(x):
    return isinstance(x, float) and x != x


def isnan(t):
    r = _map(_nan1, t.re)
    if t.im is not None:
        r = _map(lambda a, b: a or b, r, _map(_nan1, t.im))
    return Tensor(r, None, bool_)


def isinf(t):
    r = _map(lambda x: isinstance(x, float) and math.isinf(x), t.re)
    if t.im is not None:
        r = _map(lambda a, b: a or b, r, _map(lambda x: isinstance(x, float) and math.isinf(x), t.im))
    return Tensor(r, None, bool_)


def isfinite(t):
    return logical_not(logical_or(isnan(t), isinf(t)))


def nan_to_num(t, nan=0.0, **k):
    return where(isnan(t), nan, t)


def _bt(t):
    t = _t(t)
    return t if t.dtype.kind == "b" else t.type(bool_) if t.im is None else (t != 0)


def logical_and(a, b):
    a, b = _bt(a), _bt(b)
    return Tensor(_o(np.frompyfunc(V.sand, 2, 1)(a.re, b.re)), None, bool_)


def logical_or(a, b):
    a, b = _bt(a), _bt(b)
    return Tensor(_o(np.frompyfunc(V.sor, 2, 1)(a.re, b.re)), None, bool_)


def logical_xor(a, b):
    a, b = _bt(a), _bt(b)
    return Tensor(_o(np.frompyfunc(lambda x, y: V.snot(V.wrap(E.eq(V.bnode(x), V.bnode(y)))), 2, 1)(a.re, b.re)), None, bool_)


def logical_not(a):
    a = _bt(a)
    return Tensor(_map(V.snot, a.re), None, bool_)


bitwise_and, bitwise_or, bitwise_not = logical_and, logical_or, logical_not


def where(c, a=None, b=None):
    c = _bt(c)
    if a is None and b is None:
        return nonzero(c, as_tuple=True)
    A, B, dt = _pair(a, b)
    if not isinstance(a, Tensor) and not isinstance(b, Tensor) and dt.kind == "f":
        dt = _default[0]
    re = _o(np.frompyfunc(V.ite, 3, 1)(c.re, A.re, B.re))
    im = None
    if dt.kind == "c":
        z = lambda T: T.im if T.im is not None else _oarr(T.re.shape, 0.0)
        im = _o(np.frompyfunc(V.ite, 3, 1)(c.re, z(A), z(B)))
    else:
        re = _map(lambda x: _cast_el(x, dt.kind), re)
    return Tensor(re, im, dt)


def clamp(t, min=None, max=None, **k):
    t = _t(t)
    if t.im is not None:
        raise RuntimeError("clamp is not supported for complex types")
    if min is None and max is None:
        raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    dt = t.dtype
    r = t.re
    if min is not None:
        m = _t(min)
        dt = _pair(t, min)[2]
        r = _o(np.frompyfunc(V.smax, 2, 1)(r, m.re))
    if max is not None:
        m = _t(max)
        dt = _promote(dt, _pair(t, max)[2])
        r = _o(np.frompyfunc(V.smin, 2, 1)(r, m.re))
    return Tensor(_map(lambda x: _cast_el(x, dt.kind), r), None, dt)


clip = clamp
clamp_min = lambda t, m: clamp(t, min=m)
clamp_max = lambda t, m: clamp(t, max=m)


def maximum(a, b): return _real2(a, b, V.smax)
def minimum(a, b): return _real2(a, b, V.smin)
fmax, fmin = maximum, minimum


# ---------------------------------------------------------------- reductions
def _dims(t, dim):
    if dim is None:
        return None
    if isinstance(dim, (tuple, list)):
        return tuple(d % t.re.ndim for d in dim) if len(dim) else None
    nd = t.re.ndim or 1
    if not -nd <= dim < nd:
        raise IndexError("Dimension out of range (expected to be in range of [%d, %d], but got %d)" % (-nd, nd - 1, dim))
    return (dim % nd,)


def _sumel(arr):
    """sum an iterable of elements, collecting symbolic ones in one n-ary sum"""
    acc = 0
    nodes = []
    for x in arr:
        if isinstance(x, Sym):
            nodes.append(x.node)
        elif isinstance(x, SBool):
            nodes.append(V.node(x))
        else:
            acc = acc + x
    if not nodes:
        return acc
    if acc != acc or acc in (math.inf, -math.inf):
        raise NonFinite("sum with non-finite element")
    nodes.append(V.node(acc))
    return V.wrap(E.add_many(nodes))


def _reduce(arr, dims, keep, f):
    if dims is None:
        r = _wrap0(f(arr.ravel()))
        return r.reshape((1,) * arr.ndim) if keep else r
    if arr.ndim == 0:
        return _wrap0(f(arr.ravel()))
    rest = [i for i in range(arr.ndim) if i not in dims]
    a = arr.transpose(rest + list(dims))
    shp = a.shape[: len(rest)]
    a = a.reshape(shp + (-1,))
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        out[i] = f(a[i])
    if not shp:
        pass
    if keep:
        out = out.reshape([1 if i in dims else arr.shape[i] for i in range(arr.ndim)])
    return out


def sum(t, dim=None, keepdim=False, dtype=None, axis=None, **k):
    t = _t(t)
    if axis is not None:
        dim = axis
    d = _dims(t, dim)
    dt = _todtype(dtype) or (int64 if t.dtype.kind in "bi" else t.dtype)
    re = _reduce(t.re, d, keepdim, _sumel)
    re = _map(lambda x: _cast_el(x, "f" if dt.kind == "c" else dt.kind), re)
    im = None if t.im is None else _map(lambda x: _cast_el(x, "f"), _reduce(t.im, d, keepdim, _sumel))
    return Tensor(re, im, dt)


def mean(t, dim=None, keepdim=False, axis=None, dtype=None, **k):
    t = _t(t)
    if axis is not None:
        dim = axis
    if t.dtype.kind in "ib" and dtype is None:
        raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
    d = _dims(t, dim)
    n = t.re.size if d is None else int(np.prod([t.re.shape[i] for i in d]) if t.re.ndim else 1)
    s = sum(t, dim, keepdim)
    if n == 0:
        return Tensor(_map(lambda x: math.nan, s.re), s.im, s.dtype)
    sc = lambda x: Sym(E.scale(x.node, Fraction(1, n))) if isinstance(x, Sym) else x / n
    return Tensor(_map(sc, s.re), None if s.im is None else _map(sc, s.im), s.dtype)


nansum, nanmean = sum, mean


def prod(t, dim=None, keepdim=False, **k):
    t = _t(t)

    def f(a):
        r = 1
        for x in a:
            r = r * x
        return r
    return Tensor(_reduce(t.re, _dims(t, dim), keepdim, f), None, t.dtype)


def var(t, dim=None, unbiased=True, keepdim=False, correction=None, **k):
    t = _t(t)
    d = _dims(t, dim)
    n = t.re.size if d is None else int(np.prod([t.re.shape[i] for i in d]))
    m = mean(t, dim if dim is not None else tuple(range(t.ndim)), keepdim=True) if t.ndim else t
    c = correction if correction is not None else (1 if unbiased else 0)
    if n - c <= 0:
        return Tensor(_map(lambda x: math.nan, sum(t, dim, keepdim).re), None, t.dtype)
    return sum(square(t - m), dim, keepdim) / (n - c)


def std(t, dim=None, unbiased=True, keepdim=False, **k):
    return sqrt(var(t, dim, unbiased, keepdim, **k))


def _argext(a, better):
    """fold to (value, index) of the first extreme element"""
    if len(a) == 0:
        raise IndexError("max(): Expected reduction dim to have non-zero size.")
    best, bi = a[0], 0
    for i in range(1, len(a)):
        c = better(a[i], best)
        c = _b(c)
        if isinstance(c, SBool):
            best, bi = V.ite(c, a[i], best), V.ite(c, i, bi)
        elif c:
            best, bi = a[i], i
    return best, bi


class _ret(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _ext(t, dim, keepdim, better, fold, other=None):
    t = _t(t)
    if t.im is not None:
        raise RuntimeError("max is not implemented for complex")
    if dim is None:
        if t.re.size == 0:
            raise RuntimeError("max(): Expected reduction dim to be specified for input.numel() == 0. Specify the reduction dim with the 'dim' argument.")
        r = t.re.ravel()[0]
        for x in t.re.ravel()[1:]:
            r = fold(r, x)
        return Tensor(_wrap0(r), None, t.dtype)
    d = _dims(t, dim)
    both = _reduce(t.re, d, keepdim, lambda a: _argext(a, better))
    return _ret((Tensor(_map(lambda p: p[0], both), None, t.dtype), Tensor(_map(lambda p: p[1], both), None, int64)))


def max(t, dim=None, keepdim=False, **k):
    if isinstance(dim, Tensor):
        return maximum(t, dim)
    return _ext(t, dim, keepdim, lambda a, b: a > b, V.smax)


def min(t, dim=None, keepdim=False, **k):
    if isinstance(dim, Tensor):
        return minimum(t, dim)
    return _ext(t, dim, keepdim, lambda a, b: a < b, V.smin)


def amax(t, dim=None, keepdim=False):
    r = max(t, dim, keepdim)
    return r[0] if isinstance(r, tuple) else r


def amin(t, dim=None, keepdim=False):
    r = min(t, dim, keepdim)
    return r[0] if isinstance(r, tuple) else r


def argmax(t, dim=None, keepdim=False):
    if dim is None:
        return max(t.reshape(-1), 0)[1]
    return max(t, dim, keepdim)[1]


def argmin(t, dim=None, keepdim=False):
    if dim is None:
        return min(t.reshape(-1), 0)[1]
    return min(t, dim, keepdim)[1]


def any(t, dim=None, keepdim=False, **k):
    t = _bt(t)
    return Tensor(_reduce(t.re, _dims(t, dim), keepdim, lambda a: V.sor(*a)), None, bool_)


any_ = any


def all(t, dim=None, keepdim=False, **k):
    t = _bt(t)
    return Tensor(_reduce(t.re, _dims(t, dim), keepdim, lambda a: V.sand(*a)), None, bool_)


def count_nonzero(t, dim=None):
    return sum(_bt(t).type(int64), dim)


def cumsum(t, dim, **k):
    t = _t(t)
    d = dim % t.re.ndim

    def acc(a):
        a = np.moveaxis(a, d, 0).copy()
        for i in range(1, a.shape[0]):
            a[i] = a[i - 1] + a[i]
        return np.moveaxis(a, 0, d)
    dt = int64 if t.dtype.kind == "b" else t.dtype
    return Tensor(acc(t.re), None if t.im is None else acc(t.im), dt)


def diff(t, n=1, dim=-1, **k):
    for _ in range(n):
        d = dim % t.ndim
        a = [slice(None)] * t.ndim
        b = [slice(None)] * t.ndim
        a[d], b[d] = slice(1, None), slice(None, -1)
        t = t[tuple(a)] - t[tuple(b)]
    return t


def norm(t, p="fro", dim=None, keepdim=False, **k):
    t = _t(t)
    if p in ("fro", 2, 2.0, None):
        a = t.re * t.re if t.im is None else t.re * t.re + t.im * t.im
        return sqrt(Tensor(_reduce(_o(a), _dims(t, dim), keepdim, _sumel), None, _default[0]))
    if p == 1:
        return sum(abs(t), dim, keepdim)
    if p == math.inf:
        return amax(abs(t), dim, keepdim)
    raise Unsupported("norm p=%r" % p)


def unique(t, sorted=True, return_inverse=False, return_counts=False, **k):
    t = _t(t)
    if t.has_sym():
        if return_inverse or return_counts:
            raise Unsupported("unique of symbolic")
        out = []
        for v in t.re.reshape(-1):
            for i, w in enumerate(out):
                if _bi.bool(v == w):
                    break
                if _bi.bool(v < w):
                    out.insert(i, v)
                    break
            else:
                out.append(v)
        return Tensor(_o(np.array(out + [None], dtype=object)[:-1]), None, t.dtype)
    r = np.unique(t._concrete(), return_inverse=return_inverse, return_counts=return_counts)
    if isinstance(r, tuple):
        return tuple(tensor(x) for x in r)
    return tensor(r)


import functools


def _argsorted(lst, descending=False, stable=True):
    def c(i, j):
        a, b = lst[i], lst[j]
        if bool(a < b):
            r = -1
        elif bool(b < a):
            r = 1
        else:
            r = 0
        return -r if descending else r
    return _bi.sorted(range(len(lst)), key=functools.cmp_to_key(c))


def argsort(t, dim=-1, descending=False, stable=False):
    t = _t(t)
    d = dim % t.re.ndim
    a = np.moveaxis(t.re, d, -1)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for q, v in enumerate(_argsorted(list(a[i]), descending)):
            out[i + (q,)] = v
    return Tensor(np.moveaxis(out, -1, d), None, int64)


def sort(t, dim=-1, descending=False, stable=False):
    ix = argsort(t, dim, descending)
    return _ret((take_along_dim(t, ix, dim), ix))


def take_along_dim(t, ix, dim=-1):
    i = _map(lambda x: _ix(x), ix.re).astype(np.int64)
    f = lambda a: np.take_along_axis(a, i, dim)
    return Tensor(f(t.re), None if t.im is None else f(t.im), t.dtype)


gather = lambda t, dim, ix: take_along_dim(t, ix, dim)


def index_select(t, dim, ix):
    i = _map(lambda x: _ix(x), _t(ix).re).astype(np.int64)
    return t._new(np.take(t.re, i, dim), None if t.im is None else np.take(t.im, i, dim))


def masked_select(t, m):
    return t[m]


def masked_fill(t, m, v):
    return where(m, v, t)


def topk(t, k, dim=-1, largest=True, sorted=True):
    v, i = sort(t, dim, descending=largest)
    sl = [slice(None)] * t.ndim
    sl[dim] = slice(0, k)
    return _ret((v[tuple(sl)], i[tuple(sl)]))


def nonzero(t, as_tuple=False, out=None):
    t = _bt(t)
    m = _map(lambda x: bool(x), t.re)
    ix = np.nonzero(m.astype(bool)) if m.ndim else np.nonzero(np.atleast_1d(m.astype(bool)))
    if as_tuple:
        return tuple(tensor(list(map(int, i))) .type(int64) if len(i) else Tensor(np.empty((0,), dtype=object), None, int64) for i in ix)
    a = np.stack(ix, axis=1) if ix else np.zeros((0, 0))
    o = np.empty(a.shape, dtype=object)
    o[...] = a.tolist() if a.size else o
    return Tensor(o, None, int64)


argwhere = nonzero


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = _t(a), _t(b)
    r = all(abs(a - b) <= atol + rtol * abs(b))
    return bool(r)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = _t(a), _t(b)
    return abs(a - b) <= atol + rtol * abs(b)


def equal(a, b):
    if a.shape != b.shape:
        return False
    return bool(all(a == b))


# ---------------------------------------------------------------- shape ops
def _f2(t, f):
    return Tensor(f(t.re), None if t.im is None else f(t.im), t.dtype)


def reshape(t, *s): return _t(t).reshape(*s)
def ravel(t): return t.reshape(-1)


def flatten(t, start_dim=0, end_dim=-1):
    nd = t.ndim
    if nd == 0:
        return t.reshape(1)
    s, e = start_dim % nd, end_dim % nd
    shp = list(t.re.shape)
    n = int(np.prod(shp[s:e + 1]))
    return t.reshape(shp[:s] + [n] + shp[e + 1:])


def squeeze(t, dim=None):
    t = _t(t)
    if dim is None:
        return _f2(t, lambda a: a.reshape([s for s in a.shape if s != 1]))
    ds = dim if isinstance(dim, (tuple, list)) else (dim,)
    nd = t.re.ndim
    for d in ds:
        if nd and not -nd <= d < nd:
            raise IndexError("Dimension out of range (expected to be in range of [%d, %d], but got %d)" % (-nd, nd - 1, d))
    ds = {d % nd for d in ds} if nd else set()
    return _f2(t, lambda a: a.reshape([s for i, s in enumerate(a.shape) if not (i in ds and s == 1)]))


def unsqueeze(t, dim):
    nd = t.re.ndim + 1
    if not -nd <= dim < nd:
        raise IndexError("Dimension out of range")
    return _f2(t, lambda a: np.expand_dims(a, dim % nd))


def transpose(t, a, b):
    return _f2(t, lambda x: x.swapaxes(a, b))


swapaxes = swapdims = transpose
def permute(t, d): return t.permute(*d)
def movedim(t, s, d): return _f2(t, lambda a: np.moveaxis(a, s, d))
moveaxis = movedim
def t(x): return x.T


def _catprep(ts):
    ts = [_t(x) for x in ts]
    dt = ts[0].dtype
    for x in ts[1:]:
        dt = _promote(dt, x.dtype)
    return [x if x.dtype.kind == dt.kind else _astype(x, dt) for x in ts], dt


def cat(ts, dim=0, axis=None, **k):
    if axis is not None:
        dim = axis
    ts, dt = _catprep(ts)
    ts2 = [x for x in ts if not (x.re.ndim == 1 and x.re.size == 0)] or ts[:1]
    if _bi.any(x.re.ndim == 0 for x in ts2):
        raise RuntimeError("zero-dimensional tensor cannot be concatenated")
    try:
        re = np.concatenate([x.re for x in ts2], axis=dim)
        im = np.concatenate([x.im for x in ts2], axis=dim) if dt.kind == "c" else None
    except ValueError as e:
        raise RuntimeError("Sizes of tensors must match except in dimension %d. %s" % (dim, e))
    return Tensor(re, im, dt)


concat = concatenate = cat


def stack(ts, dim=0, **k):
    ts, dt = _catprep(ts)
    for x in ts:
        if x.re.shape != ts[0].re.shape:
            raise RuntimeError("stack expects each tensor to be equal size")
    return Tensor(np.stack([x.re for x in ts], axis=dim), np.stack([x.im for x in ts], axis=dim) if dt.kind == "c" else None, dt)


def vstack(ts):
    ts = [x if x.ndim > 1 else x.reshape(1, -1) for x in [_t(y) for y in ts]]
    return cat(ts, 0)


def hstack(ts):
    ts = [_t(y) for y in ts]
    ts = [x if x.ndim else x.reshape(1) for x in ts]
    return cat(ts, 0 if ts[0].ndim == 1 else 1)


def dstack(ts):
    return cat([x.reshape(x.shape + (1,)) if x.ndim == 2 else x for x in ts], 2)


column_stack = lambda ts: cat([x.reshape(-1, 1) if x.ndim < 2 else x for x in ts], 1)


def split(t, size, dim=0):
    n = t.re.shape[dim]
    out = []
    if isinstance(size, (list, tuple)):
        if _bi.sum(size) != n:
            raise RuntimeError("split_with_sizes expects split_sizes to sum exactly to %d" % n)
        st = 0
        for s in size:
            sl = [slice(None)] * t.ndim
            sl[dim] = slice(st, st + s)
            out.append(t[tuple(sl)])
            st += s
        return tuple(out)
    size = _ix(size)
    if size <= 0:
        if size == 0 and n == 0:
            return (t,)
        raise RuntimeError("split expects split_size be non-negative, but got split_size=%d" % size if size < 0 else "split expects split_size > 0")
    if n == 0:
        return (t,)
    for st in range(0, n, size):
        sl = [slice(None)] * t.ndim
        sl[dim] = slice(st, st + size)
        out.append(t[tuple(sl)])
    return tuple(out)


def chunk(t, n, dim=0):
    s = -(-t.re.shape[dim] // n)
    return split(t, s, dim)


def unbind(t, dim=0):
    return tuple(_f2(t, lambda a, i=i: np.take(a, i, dim) if a.ndim > 1 else _wrap0(a[i])) for i in range(t.re.shape[dim]))


def narrow(t, dim, start, length):
    sl = [slice(None)] * t.ndim
    sl[dim] = slice(start, start + length)
    return t[tuple(sl)]


def select(t, dim, i):
    sl = [slice(None)] * t.ndim
    sl[dim] = i
    return t[tuple(sl)]


def repeat_interleave(t, r, dim=None, **k):
    t = _t(t)
    if isinstance(r, Tensor):
        r = [_ix(x) for x in r.re.ravel()] if r.ndim else _ix(r)
    elif isinstance(r, Sym):
        r = _ix(r)
    if dim is None:
        t = t.reshape(-1)
        dim = 0
    return _f2(t, lambda a: np.repeat(a, r, axis=dim))


def tile(t, s): return t.repeat(*s)
def roll(t, shifts, dims=None): return _f2(t, lambda a: np.roll(a, shifts, dims))
def flip(t, dims): return _f2(t, lambda a: np.flip(a, dims))
def fliplr(t): return flip(t, 1)
def flipud(t): return flip(t, 0)
def rot90(t, k=1, dims=(0, 1)): return _f2(t, lambda a: np.rot90(a, k, dims))
def broadcast_to(t, s): return _t(t).expand(*_shape((s,)))


def broadcast_tensors(*ts):
    shp = np.broadcast_shapes(*[x.re.shape for x in ts])
    return tuple(_f2(x, lambda a: np.broadcast_to(a, shp)) for x in ts)


def atleast_1d(t): return t.reshape(1) if t.ndim == 0 else t


def diag(t, diagonal=0):
    t = _t(t)
    if t.ndim == 1:
        n = t.re.shape[0] + _bi.abs(diagonal)

        def f(a):
            o = _oarr((n, n), 0.0)
            for i in range(a.shape[0]):
                o[i + _bi.max(0, -diagonal), i + _bi.max(0, diagonal)] = a[i]
            return o
        return _f2(t, f)
    return _f2(t, lambda a: np.diagonal(a, diagonal).copy())


diagonal = lambda t, offset=0, dim1=0, dim2=1: _f2(t, lambda a: np.diagonal(a, offset, dim1, dim2))
diag_embed = diag


def triu(t, diagonal=0):
    return _f2(t, lambda a: np.where(np.triu(np.ones(a.shape), diagonal) > 0, a, 0.0))


def tril(t, diagonal=0):
    return _f2(t, lambda a: np.where(np.tril(np.ones(a.shape), diagonal) > 0, a, 0.0))


# ---------------------------------------------------------------- linear algebra
def _mmr(a, b):
    """real object matmul (n,k)x(k,m)"""
    n, kk = a.shape
    m = b.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = _sumel([V.rmul(a[i, l], b[l, j]) for l in range(kk) if not (V.zero(a[i, l]) or V.zero(b[l, j]))]) if kk else 0.0
    return out


def _dtmatch(a, b, what):
    if a.dtype is not b.dtype:
        raise RuntimeError("%s: expected m1 and m2 to have the same dtype, but got: %s != %s" % (what, a.dtype, b.dtype))


def mm(a, b):
    if a.ndim != 2 or b.ndim != 2:
        raise RuntimeError("mm: matrices expected, got %dD, %dD tensors" % (a.ndim, b.ndim))
    if a.shape[1] != b.shape[0]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%dx%d and %dx%d)" % (tuple(a.shape) + tuple(b.shape)))
    _dtmatch(a, b, "mm")
    if a.im is None:
        return Tensor(_mmr(a.re, b.re), None, a.dtype)
    return Tensor(_rsub(_mmr(a.re, b.re), _mmr(a.im, b.im)), _radd(_mmr(a.re, b.im), _mmr(a.im, b.re)), a.dtype)


def mv(a, b):
    if a.ndim != 2 or b.ndim != 1:
        raise RuntimeError("vector + matrix @ vector expected")
    if a.shape[1] != b.shape[0]:
        raise RuntimeError("size mismatch, got input (%d), mat (%dx%d), vec (%d)" % (a.shape[0], a.shape[0], a.shape[1], b.shape[0]))
    _dtmatch(a, b, "mv")
    return mm(a, b.reshape(-1, 1)).reshape(-1)


def dot(a, b):
    if a.ndim != 1 or b.ndim != 1:
        raise RuntimeError("1D tensors expected, but got %dD and %dD tensors" % (a.ndim, b.ndim))
    _dtmatch(a, b, "dot")
    if a.shape[0] != b.shape[0]:
        raise RuntimeError("inconsistent tensor size")
    return mm(a.reshape(1, -1), b.reshape(-1, 1)).reshape(())


inner = dot
vdot = lambda a, b: dot(conj(a), b)


def outer(a, b): return a.reshape(-1, 1) * b.reshape(1, -1)
ger = outer


def bmm(a, b):
    return stack([mm(x, y) for x, y in zip(a, b)])


def matmul(a, b):
    a, b = _t(a), _t(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    if a.ndim == 2 and b.ndim == 1:
        return mv(a, b)
    if a.ndim == 1 and b.ndim == 2:
        return mm(a.reshape(1, -1), b).reshape(-1)
    if a.ndim == 2 and b.ndim == 2:
        return mm(a, b)
    if b.ndim == 2:
        s = a.shape
        return mm(a.reshape(-1, s[-1]), b).reshape(s[:-1] + (b.shape[-1],))
    lead = np.broadcast_shapes(a.re.shape[:-2], b.re.shape[:-2])
    A = a.expand(*(lead + a.re.shape[-2:])).reshape((-1,) + a.re.shape[-2:])
    B = b.expand(*(lead + b.re.shape[-2:])).reshape((-1,) + b.re.shape[-2:])
    r = bmm(A, B)
    return r.reshape(lead + tuple(r.shape[1:]))


def addmm(c, a, b, beta=1, alpha=1):
    return beta * c + alpha * mm(a, b)


def einsum(eq, *ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts, dt = _catprep(ts)
    if dt.kind != "c":
        r = np.einsum(eq, *[x.re for x in ts])
        return Tensor(_o(r), None, dt)
    full = [_map(lambda a, b: SCplx(a, b), x.re, x.im) for x in ts]
    r = _o(np.einsum(eq, *full))
    return Tensor(_map(V.cre, r), _map(V.cim, r), dt)


def tensordot(a, b, dims=2):
    r = np.tensordot(a.re, b.re, dims)
    if a.im is not None or b.im is not None:
        raise Unsupported("complex tensordot")
    return Tensor(_o(r), None, a.dtype)


def trace(t): return sum(diag(t))
def kron(a, b): return Tensor(np.kron(a.re, b.re), None, a.dtype)


def _to_elems(t):
    """(n,n) object array of scalars (SCplx or real)"""
    if t.im is None:
        return t.re
    return _map(lambda a, b: SCplx(a, b) if (is_sym(a) or is_sym(b)) else complex_(a, b), t.re, t.im)


def _from_elems(a, dt):
    if dt.kind == "c":
        return Tensor(_map(V.cre, a), _map(V.cim, a), dt)
    return Tensor(a, None, dt)


def _minor(a, i, j):
    return np.delete(np.delete(a, i, 0), j, 1)


def _det(a):
    n = a.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    # expand along the row with most zeros
    zc = [_bi.sum(1 for x in a[i] if _iszero(x)) for i in range(n)]
    i = int(np.argmax(zc))
    s = 0.0
    for j in range(n):
        if _iszero(a[i, j]):
            continue
        m = _det(_minor(a, i, j))
        term = a[i, j] * m
        s = s + term if (i + j) % 2 == 0 else s - term
    return s


def _iszero(x):
    if isinstance(x, SCplx):
        return V.zero(x.re) and V.zero(x.im)
    return isinstance(x, (int, float, complex_)) and x == 0


def _div_el(a, b):
    if isinstance(a, (SCplx, complex_)) or isinstance(b, (SCplx, complex_)):
        return SCplx.of(a) / SCplx.of(b)
    return V.rdiv(a, b)


def inverse(t):
    t = _t(t)
    if t.ndim != 2 or t.shape[0] != t.shape[1]:
        if t.ndim > 2:
            return stack([inverse(x) for x in t])
        raise RuntimeError("linalg.inv: The input tensor must be batches of square matrices")
    if not t.has_sym():
        try:
            return tensor(np.linalg.inv(t._concrete()), dtype=t.dtype)
        except np.linalg.LinAlgError:
            raise RuntimeError("linalg.inv: The diagonal element is zero, the inversion could not be completed because the input matrix is singular.")
    a = _to_elems(t)
    n = a.shape[0]
    off = _bi.any(not _iszero(a[i, j]) for i in range(n) for j in range(n) if i != j)
    out = _oarr((n, n), 0.0)
    if not off:
        for i in range(n):
            out[i, i] = _div_el(1.0, a[i, i])
        return _from_elems(out, t.dtype)
    # block structure: connected components of the sparsity pattern
    comp = list(range(n))

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for i in range(n):
        for j in range(n):
            if i != j and not _iszero(a[i, j]):
                comp[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    for g in groups.values():
        if len(g) > 4:
            raise Unsupported("symbolic matrix inverse larger than 4x4 block")
        s = a[np.ix_(g, g)]
        d = _det(s)
        for p, i in enumerate(g):
            for q, j in enumerate(g):
                c = _det(_minor(s, q, p)) if len(g) > 1 else 1.0
                if (p + q) % 2:
                    c = -c
                out[i, j] = _div_el(c, d)
    return _from_elems(out, t.dtype)


pinverse = inverse


def det(t):
    a = _to_elems(t)
    d = _det(a)
    if t.im is None:
        return Tensor(_wrap0(d), None, t.dtype)
    return Tensor(_wrap0(V.cre(d)), _wrap0(V.cim(d)), t.dtype)


class _Linalg(types.ModuleType):
    pass


linalg = _Linalg("torch.linalg")
linalg.inv = inverse
linalg.det = det
linalg.norm = lambda t, ord=None, dim=None, keepdim=False, **k: norm(t, "fro" if ord is None else ord, dim, keepdim)
linalg.vector_norm = lambda t, ord=2, dim=None, keepdim=False, **k: norm(t, ord, dim, keepdim)
linalg.matmul = matmul


def _eig(t):
    if t.has_sym():
        n = t.shape[0]
        z = lambda i, j: V.zero(t.re[i, j]) and (t.im is None or V.zero(t.im[i, j]))
        if _bi.all(z(i, j) for i in range(n) for j in range(n) if i != j):
            im = t.im if t.im is not None else _oarr(t.re.shape, 0.0)
            re = np.array([t.re[i, i] for i in range(n)], dtype=object)
            ii = np.array([im[i, i] for i in range(n)], dtype=object)
            return Tensor(re, ii, complex128), eye(n, dtype=complex128)
        raise Unsupported("eigendecomposition of a symbolic matrix")
    w, v = np.linalg.eig(t._concrete())
    return tensor(w.astype(np.complex128)), tensor(v.astype(np.complex128))


linalg.eig = _eig


def solve(a, b):
    if b.ndim == 1:
        return mv(inverse(a), b)
    return mm(inverse(a), b)


linalg.solve = solve


# ---------------------------------------------------------------- fft
def _clean(x):
    for c in (0.0, 0.5, 1.0, -0.5, -1.0):
        if _bi.abs(x - c) < 1e-14:
            return c
    return x


def _dft(re, im, axis, inverse=False):
    n = re.shape[axis]
    re = np.moveaxis(re, axis, -1)
    im = np.moveaxis(im, axis, -1)
    oR = np.empty(re.shape, dtype=object)
    oI = np.empty(re.shape, dtype=object)
    sg = 1 if inverse else -1
    W = [[(_clean(math.cos(2 * math.pi * k * m / n)), _clean(sg * math.sin(2 * math.pi * k * m / n))) for m in range(n)] for k in range(n)]
    for i in np.ndindex(*re.shape[:-1]):
        for k in range(n):
            a, b = [], []
            for m in range(n):
                c, s = W[k][m]
                x, y = re[i + (m,)], im[i + (m,)]
                a.append(V.rmul(x, c))
                a.append(-V.rmul(y, s) if s and not V.zero(y) else 0.0)
                b.append(V.rmul(x, s) if s else 0.0)
                b.append(V.rmul(y, c))
            oR[i + (k,)] = _sumel(a)
            oI[i + (k,)] = _sumel(b)
    if inverse:
        sc = lambda x: x / n if not isinstance(x, Sym) else Sym(E.scale(x.node, Fraction(1, n)))
        oR, oI = _map(sc, oR), _map(sc, oI)
    return np.moveaxis(oR, -1, axis), np.moveaxis(oI, -1, axis)


def _fftn(t, axes, inverse=False, norm=None):
    t = _t(t)
    if not t.has_sym():
        f = np.fft.ifftn if inverse else np.fft.fftn
        return tensor(f(t._concrete(), axes=axes, norm=norm))
    re = t.re
    im = t.im if t.im is not None else _oarr(re.shape, 0.0)
    for ax in axes:
        re, im = _dft(re, im, ax, inverse)
    r = Tensor(re, im, complex128)
    n = 1
    for ax in axes:
        n *= re.shape[ax]
    if norm == "forward":
        r = r * n if inverse else r / n
    elif norm == "ortho":
        r = r * math.sqrt(n) if inverse else r / math.sqrt(n)
    return r


fft = types.ModuleType("torch.fft")
fft.fft = lambda t, n=None, dim=-1, norm=None: _fftn(t, (dim,), False, norm)
fft.ifft = lambda t, n=None, dim=-1, norm=None: _fftn(t, (dim,), True, norm)
fft.fft2 = lambda t, s=None, dim=(-2, -1), norm=None: _fftn(t, dim, False, norm)
fft.ifft2 = lambda t, s=None, dim=(-2, -1), norm=None: _fftn(t, dim, True, norm)
fft.fftn = lambda t, s=None, dim=None, norm=None: _fftn(t, dim or tuple(range(t.ndim)), False, norm)


def _rfft(t, n=None, dim=-1, norm=None):
    r = _fftn(t, (dim,), False, norm)
    sl = [slice(None)] * r.ndim
    sl[dim] = slice(0, t.shape[dim] // 2 + 1)
    return r[tuple(sl)]


fft.rfft = _rfft
fft.fftfreq = lambda n, d=1.0: tensor(np.fft.fftfreq(n, d))


def _fftshift(t, dim=None):
    return _f2(t, lambda a: np.fft.fftshift(a, dim))


fft.fftshift = _fftshift


# ---------------------------------------------------------------- random
RNG_HOOK = [None]


def _rng(kind, shape, *params):
    """object array of shape from the active symbolic RNG"""
    if RNG_HOOK[0] is None:
        raise Unsupported("random numbers without a symbolic RNG (%s)" % kind)
    a = np.empty(shape, dtype=object)
    b = a.reshape(-1) if a.ndim else a
    if a.ndim == 0:
        a[()] = RNG_HOOK[0](kind, *params)
        return a
    for i in range(b.shape[0]):
        b[i] = RNG_HOOK[0](kind, *params)
    return a


def rand(*s, dtype=None, **k):
    s = _shape(s)
    dt = _todtype(dtype) or _default[0]
    if dt.kind == "c":
        return Tensor(_rng("rand", s), _rng("rand", s), dt)
    return Tensor(_rng("rand", s), None, dt)


def randn(*s, dtype=None, **k):
    s = _shape(s)
    dt = _todtype(dtype) or _default[0]
    return Tensor(_rng("randn", s), _rng("randn", s) if dt.kind == "c" else None, dt)


def rand_like(t, **k): return rand(*t.shape, dtype=t.dtype)
def randn_like(t, **k): return randn(*t.shape, dtype=t.dtype)


def normal(mean=0.0, std=1.0, size=None, **k):
    if size is None:
        size = _t(mean).shape if isinstance(mean, Tensor) else _t(std).shape
    return Tensor(_rng("randn", tuple(size)), None, _default[0]) * std + mean


def randperm(n, **k):
    raise Unsupported("randperm")


def randint(*a, **k):
    raise Unsupported("randint")


SEED_HOOK = [None]


def manual_seed(s):
    if SEED_HOOK[0] is not None:
        SEED_HOOK[0](s)


def seed():
    """reseed from an unpredictable source"""
    if SEED_HOOK[0] is not None:
        SEED_HOOK[0](object())


# ---------------------------------------------------------------- misc module surface
def is_tensor(x): return isinstance(x, Tensor)
def numel(t): return t.numel()
def get_default_dtype(): return _default[0]
def set_default_dtype(d): _default[0] = _todtype(d)


def set_default_tensor_type(t):
    _default[0] = getattr(t, "_dt", None) or {"torch.DoubleTensor": float64, "torch.FloatTensor": float32}.get(t, float64)


def set_printoptions(*a, **k): pass
def use_deterministic_algorithms(*a, **k): pass
def result_type(a, b): return _pair(a, b)[2]


class DoubleTensor(Tensor):
    _dt = float64


class FloatTensor(Tensor):
    _dt = float32


class LongTensor(Tensor):
    _dt = int64


class _NoGrad:
    _off = True

    def __init__(self, mode=None, **k):
        self.old = []

    def __enter__(self):
        self.old.append(NOGRAD[0])
        NOGRAD[0] = 1 if self._off else 0
        return self

    def __exit__(self, *a):
        NOGRAD[0] = self.old.pop()
        return False

    def __call__(self, f):
        import functools

        @functools.wraps(f)
        def g(*a, **k):
            with self:
                return f(*a, **k)
        return g


class _Grad(_NoGrad):
    _off = False


class _SetGrad(_NoGrad):
    def __init__(self, mode=True, **k):
        self.old = [NOGRAD[0]]
        self._off = not mode
        NOGRAD[0] = 0 if mode else 1

    def __enter__(self):
        return self


no_grad = _NoGrad
enable_grad = _Grad
set_grad_enabled = _SetGrad
inference_mode = _NoGrad
is_grad_enabled = lambda: not NOGRAD[0]

cuda = types.ModuleType("torch.cuda")
cuda.is_available = lambda: False
cuda.empty_cache = lambda: None
cuda.FloatTensor = FloatTensor
cuda.DoubleTensor = DoubleTensor
cuda.manual_seed = lambda s: None
cuda.manual_seed_all = lambda s: None
cuda.synchronize = lambda *a: None
backends = types.ModuleType("torch.backends")
backends.cudnn = types.SimpleNamespace(deterministic=False, benchmark=False)
random = types.ModuleType("torch.random")
random.manual_seed = manual_seed

pi = math.pi
inf = math.inf
nan = math.nan
e = math.e
double = float64
cfloat = complex64
cdouble = complex128
long = int64
int_ = int32
half = float16
strided = None
__version__ = "2.5.1+symbolic"
newaxis = None
contiguous_format = None
preserve_format = None


def softmax(t, dim=-1, **k):
    ex = exp(t)
    return ex / sum(ex, dim, keepdim=True)


def lerp(a, b, w): return a + w * (b - a)
def addcmul(t, a, b, value=1): return t + value * a * b
def addcdiv(t, a, b, value=1): return t + value * a / b
def hypot(a, b): return sqrt(square(_t(a)) + square(_t(b)))
def searchsorted(s, v, right=False, **k): raise Unsupported("searchsorted")


def trapz(y, x=None, dx=1.0, dim=-1):
    d = (y[..., 1:] + y[..., :-1]) / 2
    return sum(d * (diff(x) if x is not None else dx), -1)


trapezoid = trapz


# methods on Tensor delegating to functions
for _n in ("abs sqrt exp sin cos tan tanh log log10 floor ceil round sign conj square sum mean prod var std max min "
           "amax amin argmax argmin any all cumsum norm sort argsort isnan isinf isfinite clamp clip where pow "
           "nonzero split chunk unbind roll flip diag diagonal trace mm mv dot matmul bmm outer inverse det "
           "repeat_interleave maximum minimum logical_and logical_or logical_not logical_xor narrow select "
           "index_select masked_select masked_fill topk take_along_dim sigmoid relu softmax add sub mul div divide "
           "neg lt le gt ge eq ne equal allclose isclose remainder floor_divide reciprocal absolute rsqrt angle trunc "
           "count_nonzero movedim diff unique cross lerp triu tril true_divide multiply subtract tile_ gather swapaxes_ "
           "nan_to_num square_ clamp_min clamp_max det inner").split():
    _f = globals().get(_n)
    if _f is not None and _n not in Tensor.__dict__ and callable(_f):
        def _mk(f):
            def m(self, *a, **k):
                return f(self, *a, **k)
            return m
        setattr(Tensor, _n, _mk(_f))


def _t_where(self, c, o):
    return where(c, self, o)


Tensor.where = _t_where
Tensor.sqrt_ = lambda self: self._inplace(sqrt(self))
Tensor.exp_ = lambda self: self._inplace(exp(self))
Tensor.masked_fill_ = lambda self, m, v: self._inplace(where(m, v, self))
Tensor.addcmul_ = lambda self, a, b, value=1: self._inplace(addcmul(self, a, b, value=value))
Tensor.squeeze_ = lambda self, d=None: squeeze(self, d)
Tensor.apply_ = lambda self, f: self._inplace(tensor(_map(f, self.re)))


# ---------------------------------------------------------------- nn
nn = types.ModuleType("torch.nn")
F = types.ModuleType("torch.nn.functional")
nn.functional = F


class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        return object.__new__(cls)

    def __init__(self, data=None, requires_grad=True):
        Tensor.__init__(self, data.re, data.im, data.dtype)
        self.requires_grad = requires_grad

    def __deepcopy__(self, memo):
        t = Tensor(self.re.copy(), None if self.im is None else self.im.copy(), self.dtype)
        p = Parameter(t, self.requires_grad)
        memo[id(self)] = p
        return p

    def requires_grad_(self, f=True):
        self.requires_grad = f
        return self


nn.Parameter = Parameter
from collections import OrderedDict


class Module:
    def __init__(self, *a, **k):
        object.__setattr__(self, "_params", OrderedDict())
        object.__setattr__(self, "_mods", OrderedDict())
        object.__setattr__(self, "_bufs", OrderedDict())
        self.training = True

    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, Parameter):
            if "_params" not in d:
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            d["_params"][k] = v
            d.pop(k, None)
        elif isinstance(v, Module):
            if "_mods" not in d:
                raise AttributeError("cannot assign module before Module.__init__() call")
            d["_mods"][k] = v
            d.pop(k, None)
        else:
            if "_params" in d and k in d["_params"]:
                if v is not None:
                    raise TypeError("cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (type(v).__name__, k))
            if "_mods" in d and k in d["_mods"]:
                raise TypeError("cannot assign '%s' as child module '%s'" % (type(v).__name__, k))
            object.__setattr__(self, k, v)

    def __getattr__(self, k):
        d = self.__dict__
        for s in ("_params", "_mods", "_bufs"):
            if s in d and k in d[s]:
                return d[s][k]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, k))

    def register_buffer(self, n, t, persistent=True):
        self._bufs[n] = t

    def register_parameter(self, n, p):
        self._params[n] = p

    def add_module(self, n, m):
        self._mods[n] = m

    register_module = add_module

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def children(self):
        return iter(self._mods.values())

    def modules(self):
        yield self
        for m in self._mods.values():
            yield from m.modules()

    def named_parameters(self, prefix="", recurse=True):
        for n, p in self._params.items():
            yield (prefix + n, p)
        for n, m in self._mods.items():
            yield from m.named_parameters(prefix + n + ".")

    def parameters(self, recurse=True):
        for _, p in self.named_parameters():
            yield p

    def _named_state(self, prefix=""):
        for n, p in self._params.items():
            yield prefix + n, p
        for n, p in self._bufs.items():
            yield prefix + n, p
        for n, m in self._mods.items():
            yield from m._named_state(prefix + n + ".")

    def state_dict(self, *a, **k):
        # like torch: detached tensors that alias the live parameters
        return OrderedDict((n, Tensor(p.re, p.im, p.dtype)) for n, p in self._named_state())

    def load_state_dict(self, sd, strict=True):
        own = dict(self._named_state())
        if strict and set(own) != set(sd):
            raise RuntimeError("Error(s) in loading state_dict")
        for n, v in sd.items():
            if n in own:
                if own[n].re.shape != v.re.shape:
                    raise RuntimeError("size mismatch for %s" % n)
                own[n].re[...] = v.re.copy()
                if own[n].im is not None:
                    own[n].im[...] = v.im.copy()
        return types.SimpleNamespace(missing_keys=[], unexpected_keys=[])

    def train(self, mode=True):
        return self

    def eval(self):
        return self

    def to(self, *a, **k):
        return self

    def cuda(self, *a):
        return self

    def cpu(self):
        return self

    def double(self):
        return self

    def float(self):
        return self

    def zero_grad(self, *a, **k):
        pass

    def requires_grad_(self, f=True):
        return self

    def apply(self, f):
        for m in self._mods.values():
            m.apply(f)
        f(self)
        return self

    def __repr__(self):
        return type(self).__name__ + "()"


nn.Module = Module


class Linear(Module):
    def __init__(self, i, o, bias=True, **k):
        super().__init__()
        self.in_features, self.out_features = i, o
        self.weight = Parameter(Tensor(_rng("linear", (o, i), i, o), None, _default[0]))
        if bias:
            self.bias = Parameter(Tensor(_rng("linear", (o,), i, o), None, _default[0]))
        else:
            self.bias = None

    def forward(self, x):
        return linear(x, self.weight, self.bias)


def linear(x, w, b=None):
    if x.shape[-1] != w.shape[1]:
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%s and %s)" % (tuple(x.shape), tuple(w.shape)[::-1]))
    r = matmul(x, w.T)
    return r if b is None else r + b


class Sequential(Module):
    def __init__(self, *ms):
        super().__init__()
        if len(ms) == 1 and isinstance(ms[0], OrderedDict):
            for n, m in ms[0].items():
                self._mods[n] = m
        else:
            for i, m in enumerate(ms):
                if not isinstance(m, Module):
                    raise TypeError("%r is not a Module subclass" % (m,))
                self._mods[str(i)] = m

    def __len__(self):
        return len(self._mods)

    def __iter__(self):
        return iter(self._mods.values())

    def __getitem__(self, i):
        l = list(self._mods.values())
        return Sequential(*l[i]) if isinstance(i, slice) else l[i]

    def append(self, m):
        self._mods[str(len(self._mods))] = m
        return self

    def forward(self, x):
        for m in self._mods.values():
            x = m(x)
        return x


class ModuleList(Module):
    def __init__(self, ms=()):
        super().__init__()
        for m in ms:
            self.append(m)

    def append(self, m):
        if not isinstance(m, Module):
            raise TypeError("%r is not a Module subclass" % (m,))
        self._mods[str(len(self._mods))] = m
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def __len__(self):
        return len(self._mods)

    def __iter__(self):
        return iter(self._mods.values())

    def __getitem__(self, i):
        l = list(self._mods.values())
        return ModuleList(l[i]) if isinstance(i, slice) else l[i]


class _Act(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return self._f(x)


def _act(name, f):
    return type(name, (_Act,), {"_f": staticmethod(f)})


nn.Linear, nn.Sequential, nn.ModuleList = Linear, Sequential, ModuleList
nn.Sigmoid = _act("Sigmoid", sigmoid)
nn.ReLU = _act("ReLU", relu)
nn.Tanh = _act("Tanh", tanh)
nn.Identity = _act("Identity", lambda x: x)


class Softmax(Module):
    def __init__(self, dim=-1):
        super().__init__()
        self.dim = dim

    def forward(self, x):
        return softmax(x, self.dim)


nn.Softmax = Softmax
F.sigmoid, F.relu, F.tanh, F.softmax, F.linear = sigmoid, relu, tanh, softmax, linear


def pad(t, p, mode="constant", value=0.0):
    if mode != "constant":
        raise Unsupported("pad mode")
    w = [(0, 0)] * t.ndim
    for i in range(len(p) // 2):
        w[t.ndim - 1 - i] = (p[2 * i], p[2 * i + 1])
    return Tensor(np.pad(t.re, w, constant_values=value or 0.0), None if t.im is None else np.pad(t.im, w, constant_values=0.0), t.dtype)


F.pad = pad
nn.init = types.ModuleType("torch.nn.init")


def _xu(t, gain=1.0):
    o, i = t.re.shape
    b = gain * math.sqrt(6.0 / (i + o))
    return t.uniform_(-b, b)


nn.init.xavier_uniform_ = _xu
nn.init.uniform_ = lambda t, a=0.0, b=1.0: t.uniform_(a, b)
nn.init.zeros_ = lambda t: t.zero_()
nn.init.constant_ = lambda t, v: t.fill_(v)
nn.init.kaiming_uniform_ = lambda t, *a, **k: t.uniform_(-1.0, 1.0)
nn.MSELoss = _act("MSELoss", lambda a, b: mean(square(a - b)))

# ---------------------------------------------------------------- optim (recording stubs; harnesses replace them)
optim = types.ModuleType("torch.optim")


class _Opt:
    def __init__(self, params, lr=1e-3, **k):
        self.param_groups = [{"params": list(params), "lr": lr}]

    def zero_grad(self, *a, **k):
        pass

    def step(self, *a, **k):
        raise Unsupported("optimizer step without a stub")


optim.Adam = type("Adam", (_Opt,), {})
optim.AdamW = type("AdamW", (_Opt,), {})
optim.SGD = type("SGD", (_Opt,), {})
optim.Optimizer = _Opt
optim.lr_scheduler = types.ModuleType("torch.optim.lr_scheduler")


class ReduceLROnPlateau:
    def __init__(self, optimizer, *a, **k):
        self.optimizer = optimizer

    def step(self, *a, **k):
        pass


optim.lr_scheduler.ReduceLROnPlateau = ReduceLROnPlateau

utils = types.ModuleType("torch.utils")

# names clashing with builtins used inside this file are exported under torch names
_EXPORT = {"bool": bool_, "int": int32, "float": float32, "short": int16}


def __getattr__(name):
    if name in _EXPORT:
        return _EXPORT[name]
    if name.startswith("__"):
        raise AttributeError(name)
    import importlib.util
    raise AttributeError("module 'torch' has no attribute '%s'" % name)

for _n in ("sign", "abs", "clip", "clamp", "neg", "square"):
    if _n in globals():
        globals()[_n] = _lazy1(globals()[_n])

from . import symtorch_more as _more  # noqa: E402  (adds to this module)
