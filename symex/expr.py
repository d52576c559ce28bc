"""Hash-consed expression DAG for the symbolic executor.

Sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B' (boolean).
Arithmetic is kept in a light normal form:
  sum  : const + sum coef_i * term_i      (args: (const, ((term, coef), ...)))
  prod : product of factor_i ** power_i   (args: ((factor, power), ...)), powers may be negative
so that syntactically different but algebraically equal programs usually
produce the same node, and a/a, x-x, sqrt(x)**2 fold away.
"""
from fractions import Fraction
import math
import cmath

_table = {}
_next = [0]


class Node:
    __slots__ = ("op", "args", "sort", "id", "_poly", "_z3", "_z3l", "_iv", "_size")

    def __init__(self, op, args, sort):
        self.op = op
        self.args = args
        self.sort = sort
        self.id = _next[0]
        _next[0] += 1
        self._poly = None
        self._iv = None

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def reset():
    _table.clear()


def _mk(op, args, sort):
    key = (op, args, sort)
    n = _table.get(key)
    if n is None:
        n = Node(op, args, sort)
        _table[key] = n
    return n


def frac(x):
    """Exact rational for a concrete python number. Floats are read through
    their shortest decimal representation (0.1 means 1/10)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise OverflowError("non-finite constant in symbolic arithmetic")
    return Fraction(repr(x))


def const(x, sort="R"):
    return _mk("const", (frac(x),), sort)


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def boolc(b):
    return TRUE if b else FALSE


def var(name, sort="R", lo=None, hi=None):
    n = _mk("var", (name,), sort)
    if lo is not None or hi is not None:
        n._iv = (None if lo is None else frac(lo), None if hi is None else frac(hi))
    return n


def is_const(n):
    return n.op == "const"


def cval(n):
    return n.args[0]


# ---------------------------------------------------------------- arithmetic
def _lin(n):
    """-> (const, dict term->coef)"""
    if n.op == "const":
        return n.args[0], {}
    if n.op == "sum":
        return n.args[0], dict(n.args[1])
    return Fraction(0), {n: Fraction(1)}


def _from_lin(c, d, sort):
    items = [(t, k) for t, k in d.items() if k != 0]
    if not items:
        return const(c, sort)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda tk: tk[0].id)
    return _mk("sum", (c, tuple(items)), sort)


def _sort2(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def toreal(n):
    if n.sort == "R":
        return n
    if n.op == "const":
        return const(n.args[0], "R")
    if n.op == "sum":
        d = {}
        for t, k in n.args[1]:
            tt = toreal(t)
            d[tt] = d.get(tt, 0) + k
        return _from_lin(n.args[0], d, "R")
    if n.op == "ite":
        return ite(n.args[0], toreal(n.args[1]), toreal(n.args[2]))
    return _mk("toreal", (n,), "R")


def _co(a, b):
    s = _sort2(a, b)
    if s == "R":
        return toreal(a), toreal(b), s
    return a, b, s


def add(a, b):
    a, b, s = _co(a, b)
    if a.op == "const" and a.args[0] == 0:
        return b
    if b.op == "const" and b.args[0] == 0:
        return a
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    if len(d1) < len(d2):
        c1, d1, c2, d2 = c2, d2, c1, d1
    for t, k in d2.items():
        v = d1.get(t, 0) + k
        if v == 0:
            d1.pop(t, None)
        else:
            d1[t] = v
    return _from_lin(c1 + c2, d1, s)


def add_many(ns):
    s = "I"
    for n in ns:
        if n.sort == "R":
            s = "R"
    c = Fraction(0)
    d = {}
    for n in ns:
        if s == "R":
            n = toreal(n)
        c2, d2 = _lin(n)
        c += c2
        for t, k in d2.items():
            d[t] = d.get(t, 0) + k
    return _from_lin(c, d, s)


def scale(a, k):
    if k == 1:
        return a
    c, d = _lin(a)
    sort = a.sort
    return _from_lin(c * k, {t: v * k for t, v in d.items()}, sort)


def neg(a):
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def _factors(n):
    """-> coef, dict factor->power"""
    if n.op == "const":
        return n.args[0], {}
    if n.op == "prod":
        return Fraction(1), dict(n.args)
    if n.op == "sum":
        c, items = n.args
        if c == 0 and len(items) == 1:
            t, k = items[0]
            k2, f = _factors(t)
            return k * k2, f
        # normalise leading coefficient so 2x+2y and x+y share a factor
        lead = items[0][1]
        if lead != 1:
            m = scale(n, 1 / lead) if n.sort == "R" else n
            if n.sort == "R":
                return lead, {m: 1}
        return Fraction(1), {n: 1}
    return Fraction(1), {n: 1}


def _from_factors(k, f, sort):
    if k == 0:
        return const(0, sort)
    extra = []
    out = {}
    for b, p in f.items():
        if p == 0:
            continue
        if b.op == "uf" and b.args[0] == "sqrt" and abs(p) >= 2:
            q, r = divmod(abs(p), 2)
            sgn = 1 if p > 0 else -1
            extra.append((b.args[1], sgn * q))
            p = sgn * r
            if p == 0:
                continue
        out[b] = out.get(b, 0) + p
    if extra:
        res = _from_factors(k, out, sort)
        for b, p in extra:
            res = mul(res, powi(b, p))
        return res
    out = {b: p for b, p in out.items() if p != 0}
    if not out:
        return const(k, sort)
    items = sorted(out.items(), key=lambda bp: bp[0].id)
    if len(items) == 1 and items[0][1] == 1:
        base = items[0][0]
    else:
        base = _mk("prod", tuple(items), sort)
    return scale(base, k)


def mul(a, b):
    a, b, s = _co(a, b)
    if a.op == "const":
        return scale(b, a.args[0]) if a.args[0] != 0 else const(0, s)
    if b.op == "const":
        return scale(a, b.args[0]) if b.args[0] != 0 else const(0, s)
    k1, f1 = _factors(a)
    k2, f2 = _factors(b)
    for t, p in f2.items():
        f1[t] = f1.get(t, 0) + p
    return _from_factors(k1 * k2, f1, s)


def powi(a, n):
    if n == 0:
        return const(1, a.sort)
    if n == 1:
        return a
    if a.op == "const":
        return const(a.args[0] ** n, a.sort if n > 0 else "R")
    if n < 0:
        a = toreal(a)
    k, f = _factors(a)
    return _from_factors(k ** n, {t: p * n for t, p in f.items()}, a.sort)


def div(a, b):
    """real division; b must be known non-zero by the caller"""
    a, b = toreal(a), toreal(b)
    if b.op == "const":
        return scale(a, 1 / b.args[0])
    return mul(a, powi(b, -1))


def uf(name, *args):
    """uninterpreted/transcendental function of reals"""
    if name == "sqrt":
        a = args[0]
        if a.op == "const":
            v = a.args[0]
            n, d = v.numerator, v.denominator
            if n >= 0:
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return const(Fraction(rn, rd))
        k, f = _factors(a)
        if f and k > 0 and all(p % 2 == 0 for p in f.values()):
            rn, rd = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if rn * rn == k.numerator and rd * rd == k.denominator:
                r = const(Fraction(rn, rd))
                for b, p in f.items():
                    r = mul(r, powi(absx(b) if (p // 2) % 2 else b, p // 2))
                return r
            else:
                r = uf("sqrt", const(k))
                for b, p in f.items():
                    r = mul(r, powi(absx(b) if (p // 2) % 2 else b, p // 2))
                return r
    if name == "exp" and args[0].op == "const" and args[0].args[0] == 0:
        return const(1)
    if name == "sin" and args[0].op == "const" and args[0].args[0] == 0:
        return const(0)
    if name == "cos" and args[0].op == "const" and args[0].args[0] == 0:
        return const(1)
    if name == "pow":
        # pow(base, real exponent)
        b, e = args
        if b.op == "const" and b.args[0] == 1:
            return const(1)
    return _mk("uf", (name,) + tuple(args), "R")


def absx(a):
    if a.op == "const":
        return const(abs(a.args[0]), a.sort)
    iv = interval(a)
    if iv[0] is not None and iv[0] >= 0:
        return a
    if iv[1] is not None and iv[1] <= 0:
        return neg(a)
    return ite(le(const(0, a.sort), a), a, neg(a))


def floor(a):
    if a.sort == "I":
        return a
    if a.op == "const":
        return const(math.floor(a.args[0]), "I")
    if a.op == "toreal":
        return a.args[0]
    c, d = _lin(a)
    # pull integral constant and integral int-terms out
    ints = {}
    rest = {}
    for t, k in d.items():
        if t.op == "toreal" and k.denominator == 1:
            ints[t.args[0]] = k
        else:
            rest[t] = k
    ci = math.floor(c)
    if not rest and not (c - ci):
        return _from_lin(Fraction(ci), ints, "I")
    if not rest:
        return _from_lin(Fraction(ci), ints, "I")
    if ints or ci:
        inner = _from_lin(c - ci, rest, "R")
        return add(_from_lin(Fraction(ci), ints, "I"), _mk("floor", (inner,), "I"))
    return _mk("floor", (a,), "I")


def idiv(a, b):
    """python floor division on ints (b nonzero)"""
    if a.op == "const" and b.op == "const":
        return const(a.args[0] // b.args[0], "I")
    if b.op == "const" and b.args[0] == 1:
        return a
    return _mk("idiv", (a, b), "I")


def imod(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args[0] % b.args[0], "I")
    if b.op == "const" and b.args[0] == 1:
        return const(0, "I")
    return _mk("imod", (a, b), "I")


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":  # not (x <= 0)  -> -x < 0
        return _mk("not", (a,), "B")
    return _mk("not", (a,), "B")


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in x.args if x.op == "and" else (x,):
            if y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if y.op == "not" and y.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return _mk("and", tuple(out), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def _cmpnorm(a, b):
    """a - b as lin; returns node of difference"""
    return sub(a, b)


def le(a, b):
    d = sub(a, b)
    if d.op == "const":
        return boolc(d.args[0] <= 0)
    iv = interval(d)
    if iv[1] is not None and iv[1] <= 0:
        return TRUE
    if iv[0] is not None and iv[0] > 0:
        return FALSE
    return _cmp("le", d)


def _cmp(op, d):
    c, t = _lin(d)
    lead = abs(sorted(t.items(), key=lambda tk: tk[0].id)[0][1])
    if d.sort == "R" and lead != 1:
        d = scale(d, 1 / lead)
    return _mk(op, (d,), "B")


def lt(a, b):
    return not_(le(b, a))


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        if a is b:
            return TRUE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return _mk("iff", (a, b) if a.id < b.id else (b, a), "B")
    d = sub(a, b)
    if d.op == "const":
        return boolc(d.args[0] == 0)
    iv = interval(d)
    if (iv[1] is not None and iv[1] < 0) or (iv[0] is not None and iv[0] > 0):
        return FALSE
    c, t = _lin(d)
    lead = sorted(t.items(), key=lambda tk: tk[0].id)[0][1]
    if lead != 1 and d.sort == "R":
        d = scale(d, 1 / lead)
    elif lead < 0:
        d = neg(d)
    return _mk("eq0", (d,), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return or_(and_(c, a), and_(not_(c), b))
    a, b, s = _co(a, b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    return _mk("ite", (c, a, b), s)


def maxx(a, b):
    if a is b:
        return a
    return ite(le(b, a), a, b)


def minx(a, b):
    if a is b:
        return a
    return ite(le(a, b), a, b)


# ---------------------------------------------------------------- intervals
def _imul(x, y):
    def m(p, q):
        if p == 0 or q == 0:
            return Fraction(0)
        return p * q
    if None in x or None in y:
        # handle only sign-definite cases
        def sgn(z):
            if z[0] is not None and z[0] >= 0:
                return 1
            if z[1] is not None and z[1] <= 0:
                return -1
            return 0
        sx, sy = sgn(x), sgn(y)
        if sx == 1 and sy == 1:
            lo = m(x[0], y[0])
            hi = None if (x[1] is None or y[1] is None) else m(x[1], y[1])
            return lo, hi
        if sx == -1 and sy == -1:
            return _imul((neg_(x[1]), neg_(x[0])), (neg_(y[1]), neg_(y[0])))
        if sx == -1 and sy == 1:
            r = _imul((neg_(x[1]), neg_(x[0])), y)
            return neg_(r[1]), neg_(r[0])
        if sx == 1 and sy == -1:
            return _imul(y, x)
        return None, None
    c = [m(x[0], y[0]), m(x[0], y[1]), m(x[1], y[0]), m(x[1], y[1])]
    return min(c), max(c)


def neg_(v):
    return None if v is None else -v


def _ipow(x, p):
    lo, hi = x
    if p < 0:
        if lo is not None and lo > 0:
            return _ipow((Fraction(0) if hi is None else 1 / hi, 1 / lo), -p)
        if hi is not None and hi < 0:
            return _ipow((1 / hi, Fraction(0) if lo is None else 1 / lo), -p)
        if p % 2 == 0:
            return Fraction(0), None
        if lo is not None and lo >= 0:
            return Fraction(0), None
        if hi is not None and hi <= 0:
            return None, Fraction(0)
        return None, None
    if p % 2 == 0:
        if lo is not None and lo >= 0:
            return lo ** p, (None if hi is None else hi ** p)
        if hi is not None and hi <= 0:
            return hi ** p, (None if lo is None else lo ** p)
        if lo is None or hi is None:
            return Fraction(0), None
        return Fraction(0), max(lo ** p, hi ** p)
    return (None if lo is None else lo ** p), (None if hi is None else hi ** p)


def _outward(v, up):
    """limit precision of interval endpoints (keeps fractions small), outward"""
    if v is None:
        return None
    if v.numerator.bit_length() < 128 and v.denominator.bit_length() < 128:
        return v
    if v == 0:
        return v
    e = v.numerator.bit_length() - v.denominator.bit_length()
    sc = Fraction(2) ** (80 - e)
    x = v * sc
    r = math.ceil(x) if up else math.floor(x)
    return Fraction(r) / sc


def interval(n):
    if n._iv is not None:
        return n._iv
    op = n.op
    if op == "const":
        r = (n.args[0], n.args[0])
    elif op == "sum":
        lo = hi = n.args[0]
        for t, k in n.args[1]:
            a, b = interval(t)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        r = (lo, hi)
    elif op == "prod":
        r = (Fraction(1), Fraction(1))
        for b, p in n.args:
            r = _imul(r, _ipow(interval(b), p))
    elif op == "ite":
        a, b = interval(n.args[1]), interval(n.args[2])
        c = n.args[0]
        # clip-style refinement: ite(x<=k, ., x) etc.
        a = _refine(c, n.args[1], a, True)
        b = _refine(c, n.args[2], b, False)
        r = (
            None if a[0] is None or b[0] is None else min(a[0], b[0]),
            None if a[1] is None or b[1] is None else max(a[1], b[1]),
        )
    elif op == "toreal":
        r = interval(n.args[0])
    elif op == "floor":
        a, b = interval(n.args[0])
        r = (
            None if a is None else Fraction(math.floor(a)),
            None if b is None else Fraction(math.floor(b)),
        )
    elif op == "imod":
        b = interval(n.args[1])
        if b[0] is not None and b[0] > 0:
            r = (Fraction(0), None if b[1] is None else b[1] - 1)
        else:
            r = (None, None)
    elif op == "uf":
        f = n.args[0]
        if f in ("sin", "cos"):
            r = (Fraction(-1), Fraction(1))
        elif f == "sqrt":
            a, b = interval(n.args[1])
            lo = Fraction(0)
            if a is not None and a > 0:
                lo = Fraction(math.isqrt(int(a * 10**24))) / 10**12 if a < 10**6 else Fraction(math.isqrt(int(a)))
            hi = None
            if b is not None:
                hi = Fraction(math.isqrt(int(b * 10**24)) + 1) / 10**12 if b < 10**6 else Fraction(math.isqrt(int(b)) + 1)
            r = (lo, hi)
        elif f == "exp":
            a, b = interval(n.args[1])
            lo, hi = Fraction(0), None
            if b is not None and b < 60:
                hi = Fraction(math.exp(float(b)) * (1 + 1e-12))
                if b <= 0:
                    hi = min(hi, Fraction(1))
            if a is not None and a > -60:
                lo = Fraction(math.exp(float(min(a, Fraction(60)))) * (1 - 1e-12))
                if a >= 0:
                    lo = max(lo, Fraction(1))
            r = (lo, hi)
        elif f == "log10":
            a, b = interval(n.args[1])
            lo = hi = None
            if a is not None and a > 0:
                lo = Fraction(math.log10(a)) - Fraction(1, 10**9)
            if b is not None and b > 0:
                hi = Fraction(math.log10(b)) + Fraction(1, 10**9)
            r = (lo, hi)
        elif f == "pow10":
            a, b = interval(n.args[1])
            lo, hi = Fraction(0), None
            if a is not None and a > -300:
                lo = Fraction(10.0 ** float(min(a, 300)) * (1 - 1e-9))
            if b is not None and b < 300:
                hi = Fraction(10.0 ** float(max(b, -300)) * (1 + 1e-9))
            r = (lo, hi)
        elif f == "pow":
            r = (Fraction(0), None)
            a, b = interval(n.args[1])
            e = interval(n.args[2])
            if a is not None and a >= 0 and b is not None and b <= 1 and e[0] is not None and e[0] >= 0:
                r = (Fraction(0), Fraction(1))
        elif f == "tanh":
            r = (Fraction(-1), Fraction(1))
        elif f == "sigmoid":
            r = (Fraction(0), Fraction(1))
        else:
            r = (None, None)
    else:
        r = (None, None)
    r = (_outward(r[0], False), _outward(r[1], True))
    n._iv = r
    return r


def _refine(c, t, iv, val):
    """refine interval of t knowing (c == val)"""
    if c.op != "le":
        return iv
    d = c.args[0]
    # c:  d <= 0 ; if t appears linearly alone: d = k*t + c0
    c0, ts = _lin(d)
    ct, tt = _lin(t)
    if len(tt) != 1 or len(ts) != 1:
        return iv
    (x, kx), = ts.items()
    (y, ky), = tt.items()
    if x is not y:
        return iv
    # k*x + c0 <= 0  (val) or > 0
    bound = -c0 / kx
    upper = (kx > 0) == val  # x <= bound if upper else x >= bound
    # t = ky*x+ct
    tb = ky * bound + ct
    if ky < 0:
        upper = not upper
    lo, hi = iv
    if upper:
        hi = tb if hi is None else min(hi, tb)
    else:
        lo = tb if lo is None else max(lo, tb)
    return lo, hi


# ---------------------------------------------------------------- misc
def children(n):
    op = n.op
    if op in ("const", "var", "true", "false"):
        return ()
    if op == "sum":
        return tuple(t for t, _ in n.args[1])
    if op == "prod":
        return tuple(t for t, _ in n.args)
    if op == "uf":
        return n.args[1:]
    return n.args


def topo(roots):
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for c in children(n):
            if c.id not in seen:
                stack.append((c, False))
    return out


class EvalError(Exception):
    pass


UF_IMPL = {
    "csqrt_re": lambda a, b: cmath.sqrt(complex(a, b)).real,
    "csqrt_im": lambda a, b: cmath.sqrt(complex(a, b)).imag,
    "sqrt": lambda x: math.sqrt(x),
    "exp": lambda x: math.exp(x),
    "sin": lambda x: math.sin(x),
    "cos": lambda x: math.cos(x),
    "tanh": lambda x: math.tanh(x),
    "log": lambda x: math.log(x),
    "log10": lambda x: math.log10(x),
    "pow10": lambda x: 10.0 ** x,
    "pow": lambda a, b: a ** b,
    "atan2": lambda a, b: math.atan2(a, b),
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
}


def evaluate(roots, env, exact=True, ufs=None):
    """evaluate nodes at a concrete assignment {var name: value}. Returns dict id->value.
    exact=True uses Fractions (transcendentals in float); else floats."""
    val = {}
    for n in topo(roots):
        op = n.op
        if op == "const":
            v = n.args[0] if exact else float(n.args[0])
        elif op == "true":
            v = True
        elif op == "false":
            v = False
        elif op == "var":
            v = env[n.args[0]]
            if n.sort == "B":
                v = bool(v)
            elif exact:
                v = Fraction(v)
            else:
                v = float(v)
        elif op == "sum":
            v = n.args[0] if exact else float(n.args[0])
            for t, k in n.args[1]:
                v += val[t.id] * (k if exact else float(k))
        elif op == "prod":
            v = Fraction(1) if exact else 1.0
            for b, p in n.args:
                x = val[b.id]
                if p < 0 and x == 0:
                    raise EvalError("division by zero")
                v *= x ** p
        elif op == "toreal":
            v = val[n.args[0].id]
        elif op == "floor":
            v = math.floor(val[n.args[0].id])
            if exact:
                v = Fraction(v)
        elif op == "idiv":
            v = val[n.args[0].id] // val[n.args[1].id]
        elif op == "imod":
            v = val[n.args[0].id] % val[n.args[1].id]
        elif op == "ite":
            v = val[n.args[1].id] if val[n.args[0].id] else val[n.args[2].id]
        elif op == "not":
            v = not val[n.args[0].id]
        elif op == "and":
            v = all(val[a.id] for a in n.args)
        elif op == "iff":
            v = val[n.args[0].id] == val[n.args[1].id]
        elif op == "le":
            v = val[n.args[0].id] <= 0
        elif op == "eq0":
            v = val[n.args[0].id] == 0
        elif op == "uf":
            f = n.args[0]
            a = [float(val[x.id]) for x in n.args[1:]]
            if ufs and (f, tuple(a)) in ufs:
                v = ufs[(f, tuple(a))]
            elif f in UF_IMPL:
                try:
                    v = UF_IMPL[f](*a)
                except (ValueError, OverflowError, ZeroDivisionError) as e:
                    raise EvalError(f"{f}{a}: {e}")
                if v != v or v in (math.inf, -math.inf):
                    raise EvalError(f"{f}{a} non-finite")
            else:
                raise EvalError("uninterpreted " + f)
            if exact:
                v = Fraction(v)
        else:
            raise EvalError("op " + op)
        val[n.id] = v
    return val


def variables(roots):
    return [n for n in topo(roots) if n.op == "var"]


def show(n, depth=4):
    if depth == 0:
        return "…"
    op = n.op
    if op == "const":
        v = n.args[0]
        return str(v) if v.denominator == 1 else "%.6g" % float(v)
    if op == "var":
        return n.args[0]
    if op == "sum":
        parts = [] if n.args[0] == 0 else ["%.6g" % float(n.args[0])]
        for t, k in n.args[1][:6]:
            parts.append((("%.6g*" % float(k)) if k != 1 else "") + show(t, depth - 1))
        return "(" + " + ".join(parts) + (" …" if len(n.args[1]) > 6 else "") + ")"
    if op == "prod":
        return "*".join(show(b, depth - 1) + ("" if p == 1 else "^%d" % p) for b, p in n.args[:6])
    return op + "(" + ", ".join(show(a, depth - 1) if isinstance(a, Node) else str(a) for a in n.args[:6]) + ")"


# ---------------------------------------------------------------- polynomials
class TooBig(Exception):
    pass


_one_mono = ()


def poly(n, cap=20000):
    """expand to {monomial(tuple of (atom,power) sorted): coef}. Atoms are
    non sum/prod nodes, or sums raised to negative powers."""
    if n._poly is not None:
        return n._poly
    for m in topo([n]):
        if m._poly is not None or m.sort == "B":
            continue
        op = m.op
        if op == "const":
            p = {(): m.args[0]} if m.args[0] != 0 else {}
        elif op == "sum":
            p = {}
            if m.args[0] != 0:
                p[()] = m.args[0]
            for t, k in m.args[1]:
                for mono, c in t._poly.items():
                    v = p.get(mono, 0) + c * k
                    if v == 0:
                        p.pop(mono, None)
                    else:
                        p[mono] = v
            if len(p) > cap:
                raise TooBig
        elif op == "prod":
            p = {(): Fraction(1)}
            for b, e in m.args:
                if e > 0:
                    for _ in range(e):
                        p = _pmul(p, b._poly, cap)
                else:
                    p = _pmul(p, {((b, e),): Fraction(1)}, cap)
        else:
            p = {((m, 1),): Fraction(1)}
        m._poly = p
    return n._poly


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for t, e in b:
        d[t] = d.get(t, 0) + e
    return tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda te: te[0].id))


def _pmul(p, q, cap):
    if len(p) * len(q) > cap * 4:
        raise TooBig
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            # sqrt(x)^2 -> handled only at construction; keep as is
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > cap:
        raise TooBig
    return r
