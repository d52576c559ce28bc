"""Less common torch functions, written with those of symtorch. They are not
needed by the code as it is, but a rewrite of it may use them."""
import math
import builtins as B
import itertools
import types
import numpy as np
from . import symtorch as T
from . import values as V
from .engine import Unsupported

Tensor = T.Tensor


def _tt(x):
    return x if isinstance(x, Tensor) else T.tensor(x)


# ------------------------------------------------------------- shapes
def block_diag(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    ts = [_tt(x) for x in ts]
    ts = [x if x.ndim == 2 else x.reshape(1, -1) for x in ts]
    dt = ts[0].dtype
    for x in ts[1:]:
        dt = T.result_type(T.zeros(1, dtype=dt), x)
    out = T.zeros((B.sum(x.shape[0] for x in ts), B.sum(x.shape[1] for x in ts)), dtype=dt)
    r = c = 0
    for x in ts:
        out[r:r + x.shape[0], c:c + x.shape[1]] = x
        r += x.shape[0]
        c += x.shape[1]
    return out


def clone(t, **k): return t.clone()
def detach(t): return t.detach()
def positive(t): return t
def scalar_tensor(v, **k): return T.tensor(v, **k)
def adjoint(t): return T.conj(T.transpose(t, -2, -1))


def atleast_2d(t):
    t = _tt(t)
    return t.reshape(1, -1) if t.ndim < 2 else t


def atleast_3d(t):
    t = _tt(t)
    if t.ndim == 0:
        return t.reshape(1, 1, 1)
    if t.ndim == 1:
        return t.reshape(1, -1, 1)
    return t.unsqueeze(-1) if t.ndim == 2 else t


def broadcast_shapes(*s):
    return T.Size(np.broadcast_shapes(*[tuple(x) if not isinstance(x, int) else (x,) for x in s]))


def cartesian_prod(*ts):
    if len(ts) == 1:
        return ts[0]
    g = T.meshgrid(*ts, indexing="ij")
    return T.stack([x.reshape(-1) for x in g], 1)


def combinations(t, r=2, with_replacement=False):
    f = itertools.combinations_with_replacement if with_replacement else itertools.combinations
    ix = list(f(range(t.shape[0]), r))
    return T.stack([T.stack([t[i] for i in c]) for c in ix]) if ix else T.zeros((0, r), dtype=t.dtype)


def unflatten(t, dim, sizes):
    dim = dim % t.ndim
    return t.reshape(*(tuple(t.shape[:dim]) + tuple(sizes) + tuple(t.shape[dim + 1:])))


def tensor_split(t, where, dim=0):
    n = t.shape[dim]
    if isinstance(where, int):
        q, r = divmod(n, where)
        cuts = [i * q + B.min(i, r) for i in range(1, where)]
    else:
        cuts = [int(x) for x in where]
    cuts = [0] + cuts + [n]
    out = []
    for a, b in zip(cuts, cuts[1:]):
        key = [slice(None)] * t.ndim
        key[dim] = slice(a, B.max(a, b))
        out.append(t[tuple(key)])
    return tuple(out)


def hsplit(t, n): return tensor_split(t, n, 0 if t.ndim == 1 else 1)
def vsplit(t, n): return tensor_split(t, n, 0)
def dsplit(t, n): return tensor_split(t, n, 2)


def take(t, ix): return t.reshape(-1)[ix]


def tril_indices(r, c, offset=0, **k): return T.tensor(np.stack(np.tril_indices(r, offset, c)).tolist())
def triu_indices(r, c, offset=0, **k): return T.tensor(np.stack(np.triu_indices(r, offset, c)).tolist())
def diagflat(t, offset=0): return T.diag(t.reshape(-1), offset)


# ------------------------------------------------------------- elementwise
def deg2rad(t): return _tt(t) * (math.pi / 180)
def rad2deg(t): return _tt(t) * (180 / math.pi)
def log2(t): return T.log(t) / math.log(2)
def log1p(t): return T.log(_tt(t) + 1)
def expm1(t): return T.exp(t) - 1
def exp2(t): return T.exp(_tt(t) * math.log(2))
def sinh(t): return (T.exp(t) - T.exp(-_tt(t))) / 2
def cosh(t): return (T.exp(t) + T.exp(-_tt(t))) / 2
def rsub(a, b, alpha=1): return b - a * alpha
def frac(t): return t - T.trunc(t)
def fmod(a, b): return a - T.trunc(a / b) * b
def float_power(a, e): return T.pow(_tt(a).to(T.complex128 if _tt(a).is_complex() else T.float64), e)
def isneginf(t): return t == -math.inf
def isposinf(t): return t == math.inf
def isreal(t): return (T.imag(t) == 0) if t.is_complex() else T.ones_like(t, dtype=T.bool_)
def heaviside(t, v): return T.where(t == 0, v, (t > 0).to(v.dtype))
def xlogy(a, b): return a * T.log(b)
def signbit(t): return t < 0


def isin(a, b, **k):
    a, b = _tt(a), _tt(b)
    out = a != a
    for x in b.reshape(-1):
        out = out | (a == x)
    return out


def bitwise_xor(a, b): return a ^ b


# ------------------------------------------------------------- reductions
def cumprod(t, dim, **k):
    n = t.shape[dim]
    parts = [t.select(dim, 0)]
    for i in range(1, n):
        parts.append(parts[-1] * t.select(dim, i))
    return T.stack(parts, dim)


def logsumexp(t, dim, keepdim=False): return T.log(T.sum(T.exp(t), dim, keepdim=keepdim))
def log_softmax(t, dim=-1, **k): return T.log(T.softmax(t, dim))
def aminmax(t, dim=None, keepdim=False):
    import collections
    R = collections.namedtuple("aminmax", "min max")
    if dim is None:
        return R(T.min(t), T.max(t))
    return R(T.amin(t, dim, keepdim=keepdim), T.amax(t, dim, keepdim=keepdim))


def std_mean(t, *a, **k): return T.std(t, *a, **k), T.mean(t, *a, **k)
def var_mean(t, *a, **k): return T.var(t, *a, **k), T.mean(t, *a, **k)
def dist(a, b, p=2): return T.norm(a - b, p)


# ------------------------------------------------------------- linear algebra
def cross(a, b, dim=-1, **k):
    i = lambda t, n: t.select(dim, n)
    return T.stack([i(a, 1) * i(b, 2) - i(a, 2) * i(b, 1),
                    i(a, 2) * i(b, 0) - i(a, 0) * i(b, 2),
                    i(a, 0) * i(b, 1) - i(a, 1) * i(b, 0)], dim)


def matrix_power(t, n):
    if n < 0:
        t, n = T.inverse(t), -n
    out = T.eye(t.shape[0], dtype=t.dtype)
    for _ in range(n):
        out = T.matmul(out, t)
    return out


def multi_dot(ts, **k):
    out = ts[0]
    for x in ts[1:]:
        out = T.matmul(out, x)
    return out


def chain_matmul(*ts): return multi_dot(ts)
def addmv(c, a, b, beta=1, alpha=1): return c * beta + T.mv(a, b) * alpha
def addr(c, a, b, beta=1, alpha=1): return c * beta + T.outer(a, b) * alpha
def vecdot(a, b, dim=-1, **k): return T.sum((T.conj(a) if a.is_complex() else a) * b, dim)


for _n, _f in dict(multi_dot=multi_dot, matrix_power=matrix_power, cross=cross, vecdot=vecdot,
                   diagonal=lambda t, offset=0, dim1=-2, dim2=-1: T.diagonal(t, offset, dim1, dim2),
                   matrix_norm=lambda t, ord="fro", **k: T.norm(t, ord, **k)).items():
    if not hasattr(T.linalg, _n):
        setattr(T.linalg, _n, _f)


# ------------------------------------------------------------- scatter
def _index(dim, index, t):
    key = [slice(None)] * t.ndim
    return key


def index_add(t, dim, index, source, alpha=1):
    out = t.clone()
    for n, i in enumerate(_tt(index).tolist()):
        key = [slice(None)] * t.ndim
        key[dim] = i
        src = [slice(None)] * t.ndim
        src[dim] = n
        out[tuple(key)] = out[tuple(key)] + source[tuple(src)] * alpha
    return out


def index_copy(t, dim, index, source):
    out = t.clone()
    for n, i in enumerate(_tt(index).tolist()):
        key = [slice(None)] * t.ndim
        key[dim] = i
        src = [slice(None)] * t.ndim
        src[dim] = n
        out[tuple(key)] = source[tuple(src)]
    return out


def index_fill(t, dim, index, value):
    out = t.clone()
    for i in _tt(index).tolist():
        key = [slice(None)] * t.ndim
        key[dim] = i
        out[tuple(key)] = value
    return out


def index_put(t, indices, values, accumulate=False):
    out = t.clone()
    if accumulate:
        idx = np.broadcast_arrays(*[np.array(_tt(i).tolist()) for i in indices])
        vals = T.broadcast_to(_tt(values), idx[0].shape)
        for pos in np.ndindex(*idx[0].shape):
            key = tuple(int(i[pos]) for i in idx)
            out[key] = out[key] + vals[pos]
        return out
    out[tuple(indices)] = values
    return out


def _scatter(t, dim, index, src, add):
    out = t.clone()
    ix = np.array(_tt(index).tolist())
    for pos in np.ndindex(*ix.shape):
        key = list(pos)
        key[dim] = int(ix[pos])
        v = src[pos] if isinstance(src, Tensor) else src
        out[tuple(key)] = out[tuple(key)] + v if add else v
    return out


def scatter(t, dim, index, src=None, value=None, **k): return _scatter(t, dim, index, src if src is not None else value, False)
def scatter_add(t, dim, index, src): return _scatter(t, dim, index, src, True)
def select_scatter(t, src, dim, index): return index_copy(t, dim, [index], src.unsqueeze(dim))


def one_hot(t, num_classes=-1):
    n = num_classes if num_classes > 0 else int(max(t.reshape(-1).tolist())) + 1
    return (t.unsqueeze(-1) == T.arange(n)).to(T.int64)


class _Finfo:
    def __init__(self, dt=None):
        name = getattr(dt or T.get_default_dtype(), "name", "float32")
        i = np.finfo({"float32": np.float32, "complex64": np.float32, "float16": np.float16}.get(name, np.float64))
        self.eps, self.tiny, self.max, self.min = float(i.eps), float(i.tiny), float(i.max), float(i.min)
        self.smallest_normal, self.resolution, self.bits = self.tiny, float(i.resolution), i.bits


finfo = _Finfo


def get_rng_state(): raise Unsupported("generator state")


def vmap(f, in_dims=0, out_dims=0, **k):
    def run(*args):
        dims = in_dims if isinstance(in_dims, tuple) else (in_dims,) * len(args)
        n = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
        outs = [f(*[a if d is None else a.select(d, i) for a, d in zip(args, dims)]) for i in range(n)]
        if isinstance(outs[0], tuple):
            return tuple(T.stack(list(o), out_dims) for o in zip(*outs))
        return T.stack(outs, out_dims)
    return run


# ------------------------------------------------------------- exports
_SKIP = {"np", "math", "itertools", "types", "V", "T", "Tensor", "B", "Unsupported", "one_hot", "vecdot", "multi_dot"}
for _n, _f in list(globals().items()):
    if _n.startswith("_") or _n in _SKIP or not (isinstance(_f, types.FunctionType) or _f is _Finfo):
        continue
    if not hasattr(T, _n):
        setattr(T, _n, _f)
T.row_stack = T.vstack
T.float_ = T.float32
T.functional = types.SimpleNamespace(**{n: getattr(T, n) for n in
                                        ("einsum", "meshgrid", "norm", "split", "tensordot", "cartesian_prod", "block_diag", "broadcast_tensors")})
T.func = types.SimpleNamespace(vmap=vmap)

# methods: every function above, and functions of symtorch that have no method yet
_METHODS = """block_diag clone detach positive adjoint unflatten tensor_split hsplit vsplit dsplit take diagflat deg2rad rad2deg
log2 log1p expm1 exp2 sinh cosh frac fmod float_power isneginf isposinf isreal heaviside xlogy signbit cumprod logsumexp
log_softmax aminmax dist cross matrix_power addmv addr index_add index_copy index_fill index_put scatter scatter_add
select_scatter addcdiv addcmul addmm argwhere conj_physical diag_embed fix fliplr flipud fmax fmin ger greater greater_equal
hypot kron less less_equal moveaxis nanmean nansum negative not_equal pinverse resolve_conj rot90 sgn vdot clamp_max clamp_min
lerp nan_to_num reciprocal remainder round rsqrt sigmoid sign sin tan tanh tril triu trunc square ceil floor floor_divide
cumsum cos divide multiply subtract true_divide logical_and logical_not logical_or logical_xor pow eq ne lt le gt ge log log10
absolute relu""".split()
for _n in _METHODS:
    _f = getattr(T, _n, None)
    if _f is None:
        continue
    if not hasattr(Tensor, _n):
        setattr(Tensor, _n, (lambda f: lambda self, *a, **k: f(self, *a, **k))(_f))

_INPLACE = """absolute addcdiv addcmul addmm ceil clamp_max clamp_min cos cumsum cumprod deg2rad divide eq exp2 expm1 fix float_power
floor floor_divide fmod frac ge gt greater greater_equal heaviside hypot index_add index_copy index_fill index_put le less
less_equal lerp log log10 log1p log2 logical_and logical_not logical_or logical_xor lt multiply nan_to_num ne negative
not_equal pow reciprocal relu remainder round rsqrt scatter scatter_add sgn sigmoid sign sin sinh cosh square subtract tan tanh
tril triu true_divide trunc""".split()
for _n in _INPLACE:
    _f = getattr(T, _n, None)
    if _f is None or hasattr(Tensor, _n + "_"):
        continue
    setattr(Tensor, _n + "_", (lambda f: lambda self, *a, **k: self._inplace(f(self, *a, **k)))(_f))


def _fill_diagonal(self, v, wrap=False):
    for i in range(B.min(self.shape)):
        self[(i,) * self.ndim] = v
    return self


def _inplace_op(op):
    return lambda self, o: self._inplace(op(self, o))


for _n, _f in {
    "fill_diagonal_": _fill_diagonal,
    "new_full": lambda self, s, v, dtype=None, **k: T.full(s, v, dtype=dtype or self.dtype),
    "new_empty": lambda self, *s, dtype=None, **k: T.zeros(*s, dtype=dtype or self.dtype),
    "cdouble": lambda self: self.to(T.complex128),
    "cfloat": lambda self: self.to(T.complex64),
    "half": lambda self: self.to(T.float16),
    "short": lambda self: self.to(T.int16),
    "byte": lambda self: self.to(T.uint8),
    "mH": property(adjoint),
    "__iand__": _inplace_op(lambda a, b: a & b),
    "__ior__": _inplace_op(lambda a, b: a | b),
    "__ixor__": _inplace_op(lambda a, b: a ^ b),
    "__imod__": _inplace_op(lambda a, b: a % b),
    "__ifloordiv__": _inplace_op(lambda a, b: a // b),
    "__reversed__": lambda self: T.flip(self, list(range(self.ndim))),
    "stride": lambda self, dim=None: (lambda s: s if dim is None else s[dim])(
        tuple(int(np.prod(self.shape[i + 1:])) for i in range(self.ndim))),
}.items():
    if not hasattr(Tensor, _n):
        setattr(Tensor, _n, _f)

F = T.nn.functional
for _n, _f in {
    "log_softmax": log_softmax,
    "one_hot": one_hot,
    "normalize": lambda t, p=2.0, dim=1, eps=1e-12, **k: t / T.clamp(T.norm(t, p, dim, keepdim=True), min=eps),
    "softplus": lambda t, beta=1, **k: T.log(T.exp(t * beta) + 1) / beta,
    "logsigmoid": lambda t: T.log(T.sigmoid(t)),
    "silu": lambda t, **k: t * T.sigmoid(t),
    "softmin": lambda t, dim=-1, **k: T.softmax(-t, dim),
    "leaky_relu": lambda t, slope=0.01, **k: T.where(t > 0, t, t * slope),
    "hardtanh": lambda t, lo=-1.0, hi=1.0, **k: T.clamp(t, lo, hi),
    "l1_loss": lambda a, b, reduction="mean", **k: _reduce(T.abs(a - b), reduction),
    "mse_loss": lambda a, b, reduction="mean", **k: _reduce(T.square(a - b), reduction),
    "dropout": lambda t, p=0.5, training=True, **k: t if not training or p == 0 else _no("dropout"),
}.items():
    if not hasattr(F, _n):
        setattr(F, _n, _f)


def _no(n):
    raise Unsupported(n)


def _reduce(t, reduction):
    return t if reduction == "none" else (T.sum(t) if reduction == "sum" else T.mean(t))


nn = T.nn
if hasattr(nn, "Module"):
    class Flatten(nn.Module):
        def __init__(self, start_dim=1, end_dim=-1):
            super().__init__()
            self.a = (start_dim, end_dim)

        def forward(self, x):
            return T.flatten(x, *self.a)

    class L1Loss(nn.Module):
        def __init__(self, reduction="mean", **k):
            super().__init__()
            self.reduction = reduction

        def forward(self, a, b):
            return _reduce(T.abs(a - b), self.reduction)

    class MSELoss(L1Loss):
        def forward(self, a, b):
            return _reduce(T.square(a - b), self.reduction)

    class LogSoftmax(nn.Module):
        def __init__(self, dim=None):
            super().__init__()
            self.dim = dim

        def forward(self, x):
            return log_softmax(x, self.dim)

    for _c in (Flatten, L1Loss, LogSoftmax, MSELoss):
        if not hasattr(nn, _c.__name__) or _c is MSELoss:
            setattr(nn, _c.__name__, _c)
