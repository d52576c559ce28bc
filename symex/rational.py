"""Exact normal form of rational functions.

A real expression built from sums, products and quotients is brought over a
common denominator: value = N / (prod D_i^k_i), N and D_i polynomials with
rational coefficients over atoms (inputs, sin, cos, exp, sqrt, ... terms).
Denominator factors are the numerators of expressions the code divided by, so
they are non-zero on the path.  Relations used: sin(x)^2 = 1 - cos(x)^2,
sqrt(x)^2 = x.  No cancellation is attempted; a numerator that vanishes means
the value is zero.
"""
import math
from fractions import Fraction
from . import expr as E

CAP = 60000


class TooBig(Exception):
    pass


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n      # {mono: coef}
        self.d = d      # {factor key: (poly, power)}


class Field:
    def __init__(self, cap=CAP):
        self.cap = cap
        self.atoms = {}      # node id -> index
        self.nodes = []
        self.rel = {}        # index -> poly for atom^2
        self.memo = {}
        self.facs = {}

    # ------------------------------------------------------------ polynomials
    def atom(self, n):
        i = self.atoms.get(n.id)
        if i is None:
            i = len(self.nodes)
            self.atoms[n.id] = i
            self.nodes.append(n)
            if n.op == "uf" and n.args[0] == "sin":
                c = self.atom(E.uf("cos", n.args[1]))
                self.rel[i] = {(): Fraction(1), ((c, 2),): Fraction(-1)}
            elif n.op == "uf" and n.args[0] == "sqrt":
                r = self.rat(n.args[1])
                if not r.d:
                    self.rel[i] = r.n
        return i

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for t, e in b:
            d[t] = d.get(t, 0) + e
        return tuple(sorted(d.items()))

    def padd(self, p, q, k=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * k
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        if len(p) == 1 and () in p:
            k = p[()]
            return q if k == 1 else {m: c * k for m, c in q.items()}
        if len(p) * len(q) > 40 * self.cap:
            raise TooBig
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > self.cap:
            raise TooBig
        return self.reduce(r)

    def reduce(self, p):
        """apply atom^2 = ... until no reducible power is left"""
        rel = self.rel
        if not rel:
            return p
        while True:
            bad = [m for m in p if any(e >= 2 and t in rel for t, e in m)]
            if not bad:
                return p
            out = {m: c for m, c in p.items()}
            for m in bad:
                c = out.pop(m, None)
                if c is None:
                    continue
                for t, e in m:
                    if e >= 2 and t in rel:
                        break
                rest = tuple((u, f) for u, f in m if u != t)
                if e % 2:
                    rest = self.mmul(rest, ((t, 1),))
                q = {rest: c}
                sq = rel[t]
                for _ in range(e // 2):
                    q2 = {}
                    for m1, c1 in q.items():
                        for m2, c2 in sq.items():
                            mm = self.mmul(m1, m2)
                            v = q2.get(mm, 0) + c1 * c2
                            if v == 0:
                                q2.pop(mm, None)
                            else:
                                q2[mm] = v
                    q = q2
                for m2, c2 in q.items():
                    v = out.get(m2, 0) + c2
                    if v == 0:
                        out.pop(m2, None)
                    else:
                        out[m2] = v
            p = out

    def ppow(self, p, n):
        r = {(): Fraction(1)}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    # --------------------------------------------------------------- fractions
    def factor(self, p):
        """-> (leading coefficient, key) of a denominator polynomial"""
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()} if lead != 1 else p
        key = tuple(sorted(q.items()))
        self.facs.setdefault(key, q)
        return lead, key

    def add_many(self, items):
        """sum of k * Rat"""
        den = {}
        for r, _ in items:
            for f, e in r.d.items():
                den[f] = max(den.get(f, 0), e)
        n = {}
        # group by denominators to multiply fewer times
        groups = {}
        for r, k in items:
            g = groups.setdefault(tuple(sorted(((hash(f), e) for f, e in r.d.items()))), [r.d, {}])
            g[1] = self.padd(g[1], r.n, k)
        for d, p in groups.values():
            for f, e in den.items():
                miss = e - d.get(f, 0)
                for _ in range(miss):
                    p = self.pmul(p, self.facs[f])
            n = self.padd(n, p)
        return Rat(n, den if n else {})

    def mul(self, a, b):
        n = self.pmul(a.n, b.n)
        d = dict(a.d)
        for f, e in b.d.items():
            d[f] = d.get(f, 0) + e
        return Rat(n, d if n else {})

    def inv(self, a):
        if not a.n:
            raise TooBig
        num = {(): Fraction(1)}
        for f, e in a.d.items():
            num = self.pmul(num, self.ppow(self.facs[f], e))
        if len(a.n) == 1 and () in a.n:
            return Rat({m: c / a.n[()] for m, c in num.items()}, {})
        lead, key = self.factor(a.n)
        return Rat({m: c / lead for m, c in num.items()}, {key: 1})

    def rat(self, root):
        for n in E.topo([root]):
            if n.id in self.memo or n.sort == "B":
                continue
            self.memo[n.id] = self._one(n)
        return self.memo[root.id]

    def _one(self, n):
        if n.op == "const":
            return Rat({(): n.args[0]} if n.args[0] != 0 else {}, {})
        if n.op == "sum":
            items = [(self.memo[t.id], k) for t, k in n.args[1]]
            if n.args[0] != 0:
                items.append((Rat({(): n.args[0]}, {}), 1))
            return self.add_many(items)
        if n.op == "prod":
            r = Rat({(): Fraction(1)}, {})
            # a base together with its own inverse never meets: powers are merged
            for b, e in n.args:
                x = self.memo[b.id]
                if e < 0:
                    x = self.inv(x)
                for _ in range(abs(e)):
                    r = self.mul(r, x)
            return r
        return Rat({((self.atom(n), 1),): Fraction(1)}, {})

    # -------------------------------------------------------------- back to E
    def node(self, p):
        out = []
        for m, c in p.items():
            t = E.const(c)
            for a, e in m:
                t = E.mul(t, E.powi(E.toreal(self.nodes[a]), e))
            out.append(t)
        return E.add_many(out) if out else E.const(0)


def normal(d, cap=CAP):
    """-> (N, [(D, power)...]) as expression nodes with d = N / prod D^power,
    or None if too large"""
    f = Field(cap)
    try:
        r = f.rat(d)
        r = Rat(f.reduce(r.n), r.d)
    except (TooBig, RecursionError):
        return None
    return f.node(r.n), [(f.node(f.facs[k]), e) for k, e in r.d.items()], len(r.n)


# ------------------------------------------------------------------ reduced
class Reduced:
    """Field of rational functions over the inputs and over one unknown per
    angle and per exponential, with cancellation after every step.  A pair
    sin(x), cos(x) is written with t = tan(x/2): an identity of rational
    functions in t is one of the pair.  Inputs with a single value are
    replaced by it.  Roots of squares are taken where the sign is known."""

    def __init__(self, d, deadline):
        import time
        from sympy.polys.fields import field
        from sympy.polys.domains import QQ
        self.time, self.QQ = time.time, QQ
        self.end = time.time() + deadline
        order = E.topo([d])
        names, self.pos, self.nodes = [], [], []
        base = {}
        for n in order:
            if n.op == "var" and n.sort != "B":
                lo, hi = E.interval(n)
                if lo is not None and lo == hi:
                    continue
                base[n.id] = "x%d" % len(base)
                self.nodes.append(n)
                self.pos.append(lo is not None and lo > 0)
        if not base:
            raise TooBig
        names = list(base.values())
        K, *vs = field(names, QQ)
        self.K, self.vars = K, dict(zip(base, vs))
        self.memo, self.trans = {}, {}
        # arguments of sin, cos, exp in the base field
        args = {}
        small = [n.args[1] for n in order if n.op == "uf" and n.args[0] in ("sin", "cos", "exp")]
        self.run(E.topo(small)) if small else None
        classes, reps = [], []
        for n in order:
            if n.op == "uf" and n.args[0] in ("sin", "cos", "exp"):
                kind = "e" if n.args[0] == "exp" else "t"
                x = self.memo[n.args[1].id]
                for i, (k, y) in enumerate(classes):
                    if k == kind and (x == y or x == -y):
                        args[n.id] = (i, 1 if x == y else -1)
                        break
                else:
                    args[n.id] = (len(classes), 1)
                    classes.append((kind, x))
                    reps.append(n.args[1])
        tn = ["t%d" % i for i in range(len(classes))]
        self.pos += [k == "e" for k, _ in classes]
        self.box = [_box(n) for n in self.nodes]
        for (k, _), a in zip(classes, reps):
            lo, hi = _box(a)
            if k == "e":
                self.nodes.append(E.uf("exp", a))
                self.box.append((0.0, math.inf))
            else:
                self.nodes.append(E.div(E.uf("sin", a), E.add_many([E.const(1), E.uf("cos", a)])))
                ok = -3.14159 < lo and hi < 3.14159
                self.box.append((math.tan(lo / 2), math.tan(hi / 2)) if ok else (-math.inf, math.inf))
        K, *vs = field(names + tn, QQ)
        self.K, self.vars = K, dict(zip(base, vs))
        self.memo = {}
        for n in order:
            if n.id in args:
                i, sg = args[n.id]
                t = vs[len(names) + i]
                if n.args[0] == "exp":
                    v = t if sg > 0 else 1 / t
                elif n.args[0] == "cos":
                    v = (1 - t * t) / (1 + t * t)
                else:
                    v = sg * 2 * t / (1 + t * t)
                self.trans[n.id] = v
        self.run(order)
        self.value = self.memo[d.id]

    def const(self, c):
        c = Fraction(c)
        return self.K(self.QQ(c.numerator, c.denominator))

    def run(self, order):
        memo, QQ = self.memo, self.QQ
        for n in order:
            if n.sort == "B" or n.id in memo:
                continue
            if self.time() > self.end:
                raise TooBig
            if n.op == "const":
                r = self.const(n.args[0])
            elif n.op == "sum":
                r = self.const(n.args[0])
                for t, k in n.args[1]:
                    r = r + memo[t.id] * QQ(k.numerator, k.denominator)
            elif n.op == "prod":
                r = self.K(1)
                for b, e in n.args:
                    x = memo[b.id]
                    if e < 0 and not x:
                        raise TooBig
                    r = r * x ** e
            elif n.op == "var":
                r = self.vars[n.id] if n.id in self.vars else self.const(E.interval(n)[0])
            elif n.op == "toreal":
                r = memo[n.args[0].id]
            elif n.op == "ite":
                g = self.truth(n.args[0])
                if g is None:
                    raise TooBig
                r = memo[n.args[1 if g else 2].id]
            elif n.op == "abs":
                g = self.sign(memo[n.args[0].id])
                if g is None:
                    raise TooBig
                r = memo[n.args[0].id] * g
            elif n.id in self.trans:
                r = self.trans[n.id]
            elif n.op == "uf" and n.args[0] == "sqrt":
                r = self.root(memo[n.args[1].id])
            elif n.op == "uf" and n.args[0] in ("csqrt_re", "csqrt_im"):
                r = self.croot(memo[n.args[1].id], memo[n.args[2].id])[n.args[0] == "csqrt_im"]
            else:
                raise TooBig
            memo[n.id] = r

    def sign(self, x):
        """if it is the same for all values of the unknowns"""
        if not x:
            return 0
        g = 1
        for p in (x.numer, x.denom):
            s = self.psign(p)
            if s is None:
                return None
            g *= s
        return g

    def psign(self, p):
        t = list(p.terms())
        if len(t) == 1:
            mono, c = t[0]
            if any(e % 2 and not pos for e, pos in zip(mono, self.pos)):
                return None
            return 1 if c > 0 else -1
        lo = hi = 0.0
        for mono, c in t:
            a = b = float(Fraction(int(c.numerator), int(c.denominator)))
            for e, (u, v) in zip(mono, self.box):
                if e:
                    if e % 2 == 0:
                        w = sorted((abs(u) ** e, abs(v) ** e))
                        u, v = (0.0, w[1]) if u < 0 < v else w
                    else:
                        u, v = u ** e, v ** e
                    c4 = [x * y if x and y else 0.0 for x in (a, b) for y in (u, v)]
                    a, b = min(c4), max(c4)
            lo, hi = lo + a, hi + b
        if lo > 1e-9:
            return 1
        if hi < -1e-9:
            return -1
        return None

    def truth(self, n):
        if n.op == "not":
            g = self.truth(n.args[0])
            return None if g is None else not g
        if n.op in ("le", "lt"):
            if n.args[0].id not in self.memo:
                return None
            g = self.sign(self.memo[n.args[0].id])
            return None if g is None else (g <= 0 if n.op == "le" else g < 0)
        return None

    def croot(self, a, b):
        m = self.root(a * a + b * b)
        re = self.root((m + a) / 2)
        if not re:
            return re, self.root((m - a) / 2)
        return re, b / (2 * re)

    def node(self, x):
        if not x:
            return E.const(0)
        out = E.const(1)
        for p, up in ((x.numer, 1), (x.denom, -1)):
            q = []
            for mono, c in p.terms():
                m = E.const(Fraction(int(c.numerator), int(c.denominator)))
                for n, e in zip(self.nodes, mono):
                    if e:
                        m = E.mul(m, E.powi(n, e))
                q.append(m)
            q = E.add_many(q)
            out = E.mul(out, q if up > 0 else E.powi(q, -1))
        return out

    def root(self, x):
        """non-negative root of a square"""
        if not x:
            return x
        out = self.K(1)
        for p, up in ((x.numer, True), (x.denom, False)):
            c, fs = p.factor_list() if len(p) > 1 else (None, None)
            if fs is None:
                (mono, c), = p.terms()
                fs = [(g.numer, e) for g, e in zip(self.K.gens, mono) if e]
            c = Fraction(int(c.numerator), int(c.denominator))
            if c < 0:
                raise TooBig
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn != c.numerator or rd * rd != c.denominator:
                raise TooBig
            r = self.const(Fraction(rn, rd))
            for g, e in fs:
                if e % 2:
                    raise TooBig
                s = 1 if e % 4 == 0 else self.psign(g)
                if s is None:
                    raise TooBig
                r = r * (s * self.K(g)) ** (e // 2)
            out = out * r if up else out / r
        return out


def _box(n):
    lo, hi = E.interval(n)
    return (-math.inf if lo is None else float(lo), math.inf if hi is None else float(hi))


def reduced(d, deadline=120.0):
    """True if d is identically zero, False if not, None if out of reach"""
    try:
        r = Reduced(d, deadline)
    except (TooBig, RecursionError):
        return None
    return not r.value


def croot(an, bn):
    """principal root of an + i bn as nodes if both parts are single terms"""
    order = E.topo([an, bn])
    if any(n.op not in ("const", "sum", "prod", "var", "toreal") and not (n.op == "uf" and n.args[0] in ("sin", "cos")) for n in order):
        return None
    one = E.add_many([an, bn])
    try:
        r = Reduced(one, 5.0)
        v = r.croot(r.memo[an.id] if an.id in r.memo else _eval(r, an), r.memo[bn.id] if bn.id in r.memo else _eval(r, bn))
    except TooBig:
        return None
    return r.node(v[0]), r.node(v[1])


def _eval(r, n):
    r.run(E.topo([n]))
    return r.memo[n.id]
