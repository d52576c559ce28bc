"""Symbolic scalars: Sym (real/int), SBool, SCplx."""
import math
import numbers
import numpy as np
from fractions import Fraction
from . import expr as E
from . import engine
from .engine import Unsupported, NonFinite

_num = (int, float, Fraction, np.integer, np.floating)


def is_sym(x):
    return isinstance(x, (Sym, SBool, SCplx))


def is_concrete_number(x):
    return isinstance(x, (bool, np.bool_) + _num + (complex, np.complexfloating))


def node(x):
    """expression node of a real/int/bool scalar"""
    if isinstance(x, Sym):
        return x.node
    if isinstance(x, SBool):
        return E.ite(x.node, E.const(1, "I"), E.const(0, "I"))
    if isinstance(x, (bool, np.bool_)):
        return E.const(int(x), "I")
    if isinstance(x, (int, np.integer)):
        return E.const(int(x), "I")
    if isinstance(x, (float, np.floating, Fraction)):
        return E.const(x, "R")
    if hasattr(x, "_scalar_value"):
        return node(x._scalar_value())
    raise Unsupported("not a scalar: %r" % (type(x),))


def bnode(x):
    if isinstance(x, SBool):
        return x.node
    if isinstance(x, (bool, np.bool_)):
        return E.boolc(bool(x))
    if isinstance(x, Sym):
        return E.not_(E.eq(x.node, E.const(0, x.node.sort)))
    if isinstance(x, _num):
        return E.boolc(x != 0)
    if hasattr(x, "_scalar_value"):
        return bnode(x._scalar_value())
    raise Unsupported("not a boolean: %r" % (type(x),))


def wrap(n):
    """node -> python value (concrete when constant)"""
    if n.sort == "B":
        if n is E.TRUE:
            return True
        if n is E.FALSE:
            return False
        return SBool(n)
    return Sym(n)


def simp(v):
    """turn constant Sym into a python number (ints exactly, reals as float)"""
    if isinstance(v, Sym) and E.is_const(v.node):
        c = E.cval(v.node)
        return int(c) if v.node.sort == "I" else float(c)
    return v


def _special(o):
    return isinstance(o, (float, np.floating)) and (math.isnan(o) or math.isinf(o))


FORMATTED = []   # numbers that were turned into text

class SBool:
    __slots__ = ("node",)
    __array_priority__ = 0

    def __init__(self, n):
        self.node = n

    def __bool__(self):
        return engine.ctx().branch(self.node)

    def _as_num(self):
        return Sym(node(self))

    def __and__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return wrap(E.and_(self.node, bnode(o)))
        if isinstance(o, Sym) or isinstance(o, int):
            raise Unsupported("bitwise and of bool and number")
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return wrap(E.or_(self.node, bnode(o)))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return wrap(E.not_(E.eq(self.node, bnode(o))))
        return NotImplemented

    __rxor__ = __xor__

    def __invert__(self):
        return wrap(E.not_(self.node))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return wrap(E.eq(self.node, bnode(o)))
        if isinstance(o, (Sym,) + _num):
            return self._as_num() == o
        return False if not hasattr(o, "_scalar_value") else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(("SBool", self.node.id))

    def __add__(self, o): return self._as_num() + o
    def __radd__(self, o): return o + self._as_num()
    def __sub__(self, o): return self._as_num() - o
    def __rsub__(self, o): return o - self._as_num()
    def __mul__(self, o): return self._as_num() * o
    def __rmul__(self, o): return o * self._as_num()
    def __truediv__(self, o): return self._as_num() / o
    def __neg__(self): return -self._as_num()
    def __lt__(self, o): return self._as_num() < o
    def __le__(self, o): return self._as_num() <= o
    def __gt__(self, o): return self._as_num() > o
    def __ge__(self, o): return self._as_num() >= o

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "SBool(%s)" % E.show(self.node)

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _coerce(o):
    """node for the other operand or None"""
    if isinstance(o, Sym):
        return o.node
    if isinstance(o, SBool):
        return node(o)
    if isinstance(o, (bool, np.bool_, int, np.integer)):
        return E.const(int(o), "I")
    if isinstance(o, (float, np.floating, Fraction)):
        return E.const(o, "R")
    return None


def nonzero_or(n, exc):
    """make sure n != 0 on this path; raise exc on the branch where n == 0"""
    iv = E.interval(n)
    if (iv[0] is not None and iv[0] > 0) or (iv[1] is not None and iv[1] < 0):
        return
    z = E.eq(n, E.const(0, n.sort))
    if engine.ctx().algebra and z is not E.TRUE and z is not E.FALSE and n.op in ("sum", "prod"):
        engine.ctx().assume(E.not_(z))      # stated bound: no exact resonance
        return
    if engine.ctx().branch(z):
        raise exc


class Sym:
    """symbolic real or integer"""
    __slots__ = ("node",)
    __array_priority__ = 0

    def __init__(self, n):
        self.node = n

    @property
    def is_int(self):
        return self.node.sort == "I"

    # ------------------------------------------------------------ arithmetic
    def _bin(self, o, f):
        if _special(o):
            raise NonFinite("arithmetic with a non-finite constant")
        n = _coerce(o)
        if n is None:
            if isinstance(o, (complex, np.complexfloating)):
                return None
            return NotImplemented
        return wrap(f(self.node, n))

    def _c(self):
        return SCplx(self, 0.0)

    def __add__(self, o):
        r = self._bin(o, E.add)
        return self._c() + o if r is None else r

    def __radd__(self, o):
        r = self._bin(o, lambda a, b: E.add(b, a))
        return o + self._c() if r is None else r

    def __sub__(self, o):
        r = self._bin(o, E.sub)
        return self._c() - o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: E.sub(b, a))
        return SCplx.of(o) - self._c() if r is None else r

    def __mul__(self, o):
        r = self._bin(o, E.mul)
        return self._c() * o if r is None else r

    def __rmul__(self, o):
        r = self._bin(o, lambda a, b: E.mul(b, a))
        return self._c() * o if r is None else r

    def __truediv__(self, o):
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            return 0.0
        n = _coerce(o)
        if n is None:
            if isinstance(o, (complex, np.complexfloating)):
                return self._c() / o
            return NotImplemented
        nonzero_or(n, ZeroDivisionError("division by zero"))
        return wrap(E.div(self.node, n))

    def __rtruediv__(self, o):
        n = _coerce(o)
        if n is None:
            if isinstance(o, (complex, np.complexfloating)):
                return SCplx.of(o) / self._c()
            return NotImplemented
        nonzero_or(self.node, ZeroDivisionError("division by zero"))
        return wrap(E.div(n, self.node))

    def __floordiv__(self, o):
        n = _coerce(o)
        if n is None:
            return NotImplemented
        return floordiv(self.node, n)

    def __rfloordiv__(self, o):
        n = _coerce(o)
        if n is None:
            return NotImplemented
        return floordiv(n, self.node)

    def __mod__(self, o):
        n = _coerce(o)
        if n is None:
            return NotImplemented
        return mod(self.node, n)

    def __rmod__(self, o):
        n = _coerce(o)
        if n is None:
            return NotImplemented
        return mod(n, self.node)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if isinstance(o, (complex, SCplx)):
            raise Unsupported("complex exponent")
        if hasattr(o, "_scalar_value") or isinstance(o, np.ndarray):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return wrap(E.neg(self.node))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(E.absx(self.node))

    # ------------------------------------------------------------ comparison
    def _cmp(self, o, f, inf):
        if isinstance(o, (float, np.floating)):
            if math.isnan(o):
                return False
            if math.isinf(o):
                return inf(o)
        n = _coerce(o)
        if n is None:
            return NotImplemented
        return wrap(f(self.node, n))

    def __lt__(self, o):
        return self._cmp(o, E.lt, lambda i: i > 0)

    def __le__(self, o):
        return self._cmp(o, E.le, lambda i: i > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: E.lt(b, a), lambda i: i < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: E.le(b, a), lambda i: i < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return False
        if isinstance(o, (complex, np.complexfloating)):
            return self._c() == o
        r = self._cmp(o, E.eq, lambda i: False)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(("Sym", self.node.id))

    def __bool__(self):
        return engine.ctx().branch(E.not_(E.eq(self.node, E.const(0, self.node.sort))))

    # ------------------------------------------------------------ conversions
    def __index__(self):
        if not self.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return engine.ctx().concretize(self.node)

    def __int__(self):
        return engine.ctx().concretize(trunc(self).node if not self.is_int else self.node)

    def __float__(self):
        if E.is_const(self.node):
            return float(E.cval(self.node))
        raise Unsupported("native float() of a symbolic number")

    def __complex__(self):
        raise Unsupported("native complex() of a symbolic number")

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return wrap(E.floor(self.node))

    def __ceil__(self):
        return wrap(E.neg(E.floor(E.neg(self.node))))

    def __round__(self, nd=None):
        return round_(self, nd)

    def __format__(self, spec):
        FORMATTED.append(self)
        return "<sym%d>" % (len(FORMATTED) - 1)

    def __repr__(self):
        return "Sym(%s)" % E.show(self.node)

    __str__ = __repr__

    def is_integer(self):
        return wrap(E.eq(E.toreal(E.floor(self.node)), E.toreal(self.node)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar-like surface
    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def dtype(self):
        return np.dtype("int64") if self.is_int else np.dtype("float64")

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    def astype(self, t):
        return self

    def copy(self):
        return self

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return fn("exp", self)

    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def tanh(self):
        return fn("tanh", self)

    def log10(self):
        return fn("log10", self)

    def log(self):
        return fn("log", self)

    def square(self):
        return self * self

    def rint(self):
        return round_(self, None)

    def floor(self):
        return wrap(E.toreal(E.floor(self.node)))

    def ceil(self):
        return wrap(E.toreal(E.neg(E.floor(E.neg(self.node)))))

    def isnan(self):
        return False


numbers.Number.register(Sym)
numbers.Number.register(SBool)


def floordiv(a, b):
    nonzero_or(b, ZeroDivisionError("integer division or modulo by zero"))
    if a.sort == "I" and b.sort == "I":
        return wrap(E.idiv(a, b))
    return wrap(E.toreal(E.floor(E.div(a, b))))


def mod(a, b):
    nonzero_or(b, ZeroDivisionError("modulo by zero"))
    if a.sort == "I" and b.sort == "I":
        return wrap(E.imod(a, b))
    q = E.toreal(E.floor(E.div(a, b)))
    return wrap(E.sub(E.toreal(a), E.mul(q, E.toreal(b))))


def trunc(x):
    """python int() semantics"""
    if isinstance(x, Sym):
        if x.is_int:
            return x
        n = x.node
        iv = E.interval(n)
        if iv[0] is not None and iv[0] >= 0:
            return wrap(E.floor(n))
        return wrap(E.ite(E.le(E.const(0), n), E.floor(n), E.neg(E.floor(E.neg(n)))))
    if isinstance(x, SBool):
        return Sym(node(x))
    return int(x)


def round_(x, nd):
    if not isinstance(x, Sym):
        return round(x, nd) if nd is not None else round(x)
    if x.is_int:
        return x
    if nd:
        k = Fraction(10) ** nd
        r = round_(Sym(E.scale(x.node, k)), None)
        return Sym(E.scale(E.toreal(node(r)), 1 / k))
    n = x.node
    f = E.floor(E.add(n, E.const(Fraction(1, 2))))
    tie = E.eq(E.toreal(f), E.add(n, E.const(Fraction(1, 2))))
    odd = E.eq(E.imod(f, E.const(2, "I")), E.const(1, "I"))
    r = E.ite(E.and_(tie, odd), E.sub(f, E.const(1, "I")), f)
    return wrap(r) if nd is None else wrap(E.toreal(r))


def sqrt(x):
    """real square root; a negative argument is a non-finite result (nan)"""
    if not isinstance(x, (Sym, SBool)):
        if x < 0:
            return float("nan")
        return math.sqrt(x)
    n = E.toreal(node(x))
    iv = E.interval(n)
    if not (iv[0] is not None and iv[0] >= 0):
        if engine.ctx().branch(E.lt(n, E.const(0))):
            raise NonFinite("sqrt of a negative number")
    return wrap(E.uf("sqrt", n))


_cfn = {"exp": math.exp, "sin": math.sin, "cos": math.cos, "tanh": math.tanh,
        "log": math.log, "log10": math.log10, "pow10": lambda x: 10.0 ** x,
        "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0}


def fn(name, x):
    if isinstance(x, SBool):
        x = x._as_num()
    if not isinstance(x, Sym):
        try:
            return _cfn[name](x)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    n = E.toreal(x.node)
    if name in ("log", "log10"):
        iv = E.interval(n)
        if not (iv[0] is not None and iv[0] > 0):
            if engine.ctx().branch(E.le(n, E.const(0))):
                raise NonFinite("log of a non-positive number")
        if name == "log10" and n.op == "uf" and n.args[0] == "pow10":
            return wrap(n.args[1])
        if name == "log" and n.op == "uf" and n.args[0] == "exp":
            return wrap(n.args[1])
    if name == "pow10" and n.op == "uf" and n.args[0] == "log10":
        return wrap(n.args[1])
    if name == "sigmoid":
        return wrap(E.uf("sigmoid", n))
    return wrap(E.uf(name, n))


def power(b, e):
    """python/numpy real power"""
    if isinstance(e, SBool):
        e = e._as_num()
    if isinstance(b, SBool):
        b = b._as_num()
    e = simp(e)
    if isinstance(e, (int, np.integer)) or (isinstance(e, (float, np.floating)) and float(e).is_integer() and abs(e) < 64):
        k = int(e)
        if not isinstance(b, Sym):
            return b ** e
        if k < 0:
            nonzero_or(b.node, ZeroDivisionError("0.0 cannot be raised to a negative power"))
        n = b.node if (k >= 0 and isinstance(e, (int, np.integer))) else E.toreal(b.node)
        return wrap(E.powi(n, k))
    if isinstance(e, (float, np.floating)):
        if not isinstance(b, Sym):
            return b ** e
        if abs(e) == 0.5 or float(e * 2).is_integer() and abs(e) < 16:
            s = sqrt(b)
            return power(s, int(round(e * 2)))
        return wrap(E.uf("pow", E.toreal(b.node), E.const(e)))
    # symbolic exponent
    if isinstance(e, Sym):
        if not isinstance(b, Sym) and b == 10:
            return fn("pow10", e)
        if e.is_int:
            iv = E.interval(e.node)
            if None not in iv and iv[1] - iv[0] <= 16:
                return power(b, int(e.__index__()))
        if not isinstance(b, Sym):
            if b == 1:
                return 1.0
        bn = E.toreal(node(b))
        iv = E.interval(bn)
        if not (iv[0] is not None and iv[0] >= 0):
            if engine.ctx().branch(E.lt(bn, E.const(0))):
                raise NonFinite("negative base with real exponent")
        return wrap(E.uf("pow", bn, E.toreal(e.node)))
    raise Unsupported("power")


# -------------------------------------------------------------------- complex
def cre(x):
    if isinstance(x, SCplx):
        return x.re
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real)
    return x


def cim(x):
    if isinstance(x, SCplx):
        return x.im
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.imag)
    return 0.0


def zero(x):
    if isinstance(x, Sym):
        return x.node.op == "const" and x.node.args[0] == 0
    return isinstance(x, (int, float)) and x == 0


def radd(a, b):
    if zero(a):
        return b
    if zero(b):
        return a
    return a + b


def rsub(a, b):
    if zero(b):
        return a
    if zero(a):
        return -b
    return a - b


def rmul(a, b):
    if (zero(a) and isinstance(b, Sym)) or (zero(b) and isinstance(a, Sym)):
        return 0.0
    return a * b


def rdiv(a, b):
    """IEEE style division: division by zero is a non-finite path"""
    if isinstance(b, (Sym, SBool)):
        if engine.ctx().nan:
            z = E.eq(node(b), E.const(0, node(b).sort))
            if engine.ctx().branch(z):
                az = E.eq(node(a), E.const(0, node(a).sort)) if isinstance(a, (Sym, SBool)) else None
                if (az is not None and engine.ctx().branch(az)) or (az is None and (a != a or a == 0)):
                    return math.nan
                raise NonFinite("division by zero")
            return a / b
        nonzero_or(node(b), NonFinite("division by zero"))
        return a / b
    if b == 0:
        if isinstance(a, (Sym, SBool)):
            raise NonFinite("division by zero")
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * (math.copysign(1, b) if isinstance(b, float) else 1)
    return a / b


class SCplx:
    __slots__ = ("re", "im")
    __array_priority__ = 0

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, SCplx):
            return x
        return SCplx(cre(x), cim(x))

    @staticmethod
    def ok(o):
        return isinstance(o, (SCplx, Sym, SBool, bool, np.bool_, complex, np.complexfloating) + _num)

    def __add__(self, o):
        if not SCplx.ok(o):
            return NotImplemented
        return SCplx(radd(self.re, cre(o)), radd(self.im, cim(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if not SCplx.ok(o):
            return NotImplemented
        return SCplx(rsub(self.re, cre(o)), rsub(self.im, cim(o)))

    def __rsub__(self, o):
        if not SCplx.ok(o):
            return NotImplemented
        return SCplx(rsub(cre(o), self.re), rsub(cim(o), self.im))

    def __mul__(self, o):
        if not SCplx.ok(o):
            return NotImplemented
        a, b, c, d = self.re, self.im, cre(o), cim(o)
        return SCplx(rsub(rmul(a, c), rmul(b, d)), radd(rmul(a, d), rmul(b, c)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not SCplx.ok(o):
            return NotImplemented
        c, d = cre(o), cim(o)
        if zero(d):
            return SCplx(rdiv(self.re, c), rdiv(self.im, c))
        den = radd(rmul(c, c), rmul(d, d))
        num = self * SCplx(c, -d if not zero(d) else 0.0)
        return SCplx(rdiv(num.re, den), rdiv(num.im, den))

    def __rtruediv__(self, o):
        return SCplx.of(o) / self

    def __pow__(self, k):
        if isinstance(k, (int, np.integer)) or (isinstance(k, float) and k.is_integer()):
            k = int(k)
            if k < 0:
                return SCplx(1.0, 0.0) / (self ** (-k))
            r = SCplx(1.0, 0.0)
            for _ in range(k):
                r = r * self
            return r
        raise Unsupported("complex power")

    def __neg__(self):
        return SCplx(-self.re, -self.im)

    def __abs__(self):
        return sqrt(radd(rmul(self.re, self.re), rmul(self.im, self.im)))

    def conjugate(self):
        return SCplx(self.re, -self.im)

    conj = conjugate

    def __eq__(self, o):
        if not SCplx.ok(o):
            return NotImplemented
        a = self.re == cre(o)
        b = self.im == cim(o)
        return wrap(E.and_(bnode(a), bnode(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        r = self != 0
        return bool(r)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def item(self):
        return self

    def __format__(self, s):
        return "<symc>"

    def __repr__(self):
        return "SCplx(%r, %r)" % (self.re, self.im)

    def __deepcopy__(self, memo):
        return self


numbers.Number.register(SCplx)


def ite(c, a, b):
    """value-level if-then-else"""
    if isinstance(c, Sym):
        c = wrap(bnode(c))
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (SCplx, complex)) or isinstance(b, (SCplx, complex)):
        return SCplx(ite(c, cre(a), cre(b)), ite(c, cim(a), cim(b)))
    if isinstance(a, (bool, np.bool_, SBool)) and isinstance(b, (bool, np.bool_, SBool)):
        return wrap(E.ite(c.node, bnode(a), bnode(b)))
    if _special(a) or _special(b):
        return a if engine.ctx().branch(c.node) else b
    return wrap(E.ite(c.node, node(a), node(b)))


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    if _special(a) or _special(b):
        return a if bool(a >= b) else b
    return wrap(E.maxx(node(a), node(b)))


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    if _special(a) or _special(b):
        return a if bool(a <= b) else b
    return wrap(E.minx(node(a), node(b)))


def sand(*xs):
    return wrap(E.and_(*[bnode(x) for x in xs]))


def sor(*xs):
    return wrap(E.or_(*[bnode(x) for x in xs]))


def snot(x):
    return wrap(E.not_(bnode(x)))
