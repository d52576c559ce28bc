"""SMT back end: translate expression DAGs to z3 and decide queries.

Two encodings of the same query are used:
  lin : every polynomial is expanded and each non-linear monomial becomes one
        opaque real variable (bounded by interval arithmetic).  This is an
        over-approximation: `unsat` is conclusive.
  nl  : the exact non-linear real arithmetic encoding.  `unsat` and `sat` are
        both conclusive up to the transcendental atoms (sin, exp, ...), which
        are constrained by axioms only; a `sat` is therefore always replayed on
        the real code before it is reported.
"""
import time
from fractions import Fraction
import z3
from . import expr as E

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0,
         "unsat_lin": 0, "unsat_nl": 0, "feasibility": 0}

NEWPOW = True


def qv(fr):
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Enc:
    def __init__(self, mode):
        self.mode = mode
        self.cache = {}
        self.side = []      # side constraints (z3)
        self.monos = {}
        self.invs = {}
        self.ufs = []       # list of (name, node, args nodes)
        self.atomvars = {}
        self._n = 0

    def fresh(self, p, sort="R"):
        self._n += 1
        return z3.Real("%s!%d" % (p, self._n)) if sort == "R" else z3.Int("%s!%d" % (p, self._n))

    def bound(self, v, iv, is_int=False):
        lo, hi = iv
        if lo is not None:
            self.side.append(v >= (qv(lo) if not is_int else z3.IntVal(_ceil(lo))))
        if hi is not None:
            self.side.append(v <= (qv(hi) if not is_int else z3.IntVal(_floor(hi))))

    # ------------------------------------------------------------------
    def tr(self, root):
        for n in E.topo([root]):
            if n.id not in self.cache:
                self.cache[n.id] = self._tr1(n)
        return self.cache[root.id]

    def inv(self, b):
        v = self.invs.get(b.id)
        if v is None:
            v = self.fresh("inv")
            self.invs[b.id] = v
            self.bound(v, E._ipow(E.interval(b), -1))
            if self.mode == "nl":
                self.side.append(v * self.cache_or_tr(b) == 1)
            elif b.op == "sum" and len(b.args[1]) <= 24:
                # b * (1/b) = 1, as a linear relation between monomials
                acc = [qv(b.args[0]) * v] if b.args[0] != 0 else []
                try:
                    bi = E.powi(b, -1)
                    for t, k in b.args[1]:
                        acc.append(qv(k) * self.from_poly(E.poly(E.mul(t, bi))))
                    self.side.append(z3.Sum(acc) == 1)
                except E.TooBig:
                    pass
            # lin mode otherwise: no product constraint (over-approximation)
        return v

    def cache_or_tr(self, b):
        if b.id not in self.cache:
            self.tr(b)
        return self.cache[b.id]

    def mono(self, m):
        """z3 term for a monomial (lin mode)"""
        if len(m) == 1 and m[0][1] == 1:
            return self.cache_or_tr(m[0][0])
        if len(m) == 1 and m[0][1] == -1:
            return self.inv(m[0][0])
        key = tuple((b.id, p) for b, p in m)
        v = self.monos.get(key)
        if v is None and any(b.op == "ite" for b, _ in m):
            v = self.shannon(m)
            if v is not None:
                self.monos[key] = v
                return v
        if v is None:
            v = self.fresh("mono")
            self.monos[key] = v
            iv = (Fraction(1), Fraction(1))
            for b, p in m:
                iv = E._imul(iv, E._ipow(E.interval(b), p))
            if all(p % 2 == 0 for _, p in m):
                iv = (max(Fraction(0), iv[0]) if iv[0] is not None else Fraction(0), iv[1])
            self.bound(v, iv)
            self.mccormick(m, v)
        return v

    def shannon(self, m, limit=8):
        """monomial over case distinctions: distribute the product over the
        cases (exact; the abstraction of monomials then sees plain products)"""
        conds = set()
        todo = [b for b, _ in m]
        while todo:
            b = todo.pop()
            if b.op == "ite":
                conds.add(b.args[0].id)
                todo += [b.args[1], b.args[2]]
                if len(conds) > limit:
                    return None
        c = None
        for b, _ in m:
            if b.op == "ite":
                c = b.args[0]
                break

        def pick(b, val):
            while b.op == "ite" and b.args[0] is c:
                b = b.args[1] if val else b.args[2]
            return b
        out = []
        for val in (True, False):
            n = None
            for b, p in m:
                f = E.powi(E.toreal(pick(b, val)), p)
                n = f if n is None else E.mul(n, f)
            out.append(self.from_poly(E.poly(n)))
        return z3.If(self.cache_or_tr(c), out[0], out[1])

    def mccormick(self, m, v):
        # bilinear envelopes for x*y and x^2 with bounded atoms
        fs = []
        for b, p in m:
            if p < 0:
                return
            fs += [b] * p
        if len(fs) != 2:
            return
        x, y = fs
        xl, xh = E.interval(x)
        yl, yh = E.interval(y)
        if None in (xl, xh, yl, yh):
            return
        zx, zy = self.cache_or_tr(x), self.cache_or_tr(y)
        q = qv
        self.side.append(v >= q(xl) * zy + q(yl) * zx - q(xl * yl))
        self.side.append(v >= q(xh) * zy + q(yh) * zx - q(xh * yh))
        self.side.append(v <= q(xh) * zy + q(yl) * zx - q(xh * yl))
        self.side.append(v <= q(xl) * zy + q(yh) * zx - q(xl * yh))

    def from_poly(self, p):
        terms = []
        c = Fraction(0)
        for m, k in p.items():
            if m == ():
                c = k
            else:
                t = self.mono(m)
                if z3.is_int(t):
                    t = z3.ToReal(t)
                terms.append(t if k == 1 else qv(k) * t)
        if c != 0 or not terms:
            terms.append(qv(c))
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def _tr1(self, n):
        op = n.op
        c = self.cache
        if op == "const":
            if n.sort == "I":
                return z3.IntVal(int(n.args[0]))
            return qv(n.args[0])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "var":
            name = "v_" + n.args[0]
            if n.sort == "B":
                return z3.Bool(name)
            v = z3.Real(name) if n.sort == "R" else z3.Int(name)
            self.bound(v, E.interval(n), n.sort == "I")
            return v
        if op == "sum":
            if self.mode == "lin" and n.sort == "R":
                return self.from_poly(E.poly(n))
            terms = []
            for t, k in n.args[1]:
                z = c[t.id]
                if n.sort == "I":
                    terms.append(z if k == 1 else z3.IntVal(int(k)) * z)
                else:
                    terms.append(z if k == 1 else qv(k) * z)
            if n.args[0] != 0:
                terms.append(qv(n.args[0]) if n.sort == "R" else z3.IntVal(int(n.args[0])))
            return z3.Sum(terms) if len(terms) > 1 else terms[0]
        if op == "prod":
            if self.mode == "lin" and n.sort == "R":
                return self.from_poly(E.poly(n))
            out = None
            for b, p in n.args:
                z = c[b.id] if p > 0 else self.inv(b)
                for _ in range(abs(p)):
                    out = z if out is None else out * z
            return out
        if op == "toreal":
            return z3.ToReal(c[n.args[0].id])
        if op == "floor":
            v = self.fresh("fl", "I")
            x = c[n.args[0].id]
            self.side.append(z3.ToReal(v) <= x)
            self.side.append(x < z3.ToReal(v) + 1)
            return v
        if op in ("idiv", "imod"):
            a, b = c[n.args[0].id], c[n.args[1].id]
            # z3 div/mod is Euclidean; python is floor: same for positive divisor
            bn = n.args[1]
            if E.is_const(bn) and E.cval(bn) > 0 or (E.interval(bn)[0] is not None and E.interval(bn)[0] > 0):
                return a / b if op == "idiv" else a % b
            q = z3.If(b > 0, a / b, z3.If(a % b == 0, a / b, a / b - 1))
            # for b<0 Euclid remainder r>=0: a = b*q+r ; floor: q' = q-1 if r>0
            return q if op == "idiv" else a - b * q
        if op == "ite":
            v = z3.If(c[n.args[0].id], c[n.args[1].id], c[n.args[2].id])
            return v
        if op == "not":
            return z3.Not(c[n.args[0].id])
        if op == "and":
            return z3.And([c[a.id] for a in n.args])
        if op == "iff":
            return c[n.args[0].id] == c[n.args[1].id]
        if op == "le":
            return c[n.args[0].id] <= 0
        if op == "eq0":
            return c[n.args[0].id] == 0
        if op == "uf":
            v = self.fresh("uf_" + n.args[0])
            self.bound(v, E.interval(n))
            self.ufs.append((n.args[0], n, v))
            f = n.args[0]
            a = [c[x.id] for x in n.args[1:]]
            if f == "sqrt":
                if self.mode == "nl":
                    self.side.append(v * v == a[0])
                else:
                    self.cache[n.id] = v
                    self.side.append(self.mono(((n, 2),)) == a[0])
                self.side.append(a[0] >= 0)
                self.side.append((v == 0) == (a[0] == 0))
            elif f == "exp":
                self.side.append(v > 0)
                self.side.append(v >= 1 + a[0])
            elif f == "pow10":
                self.side.append(v > 0)
            elif f == "pow":
                self.side.append(z3.Implies(a[1] > 0, (v == 0) == (a[0] == 0)))
                self.side.append(z3.Implies(a[0] == 1, v == 1))
                self.side.append(z3.Implies(a[1] == 1, v == a[0]))
                self.side.append(z3.Implies(z3.And(a[0] > 0), v > 0))
                self.side.append(z3.Implies(z3.And(a[0] >= 0, a[0] <= 1, a[1] >= 0), v <= 1))
                self.side.append(z3.Implies(z3.And(a[0] >= 1, a[1] >= 0), v >= 1))
            elif f == "sigmoid":
                self.side += [v >= 0, v <= 1]
            return v
        raise NotImplementedError(op)

    def axioms(self):
        """pairwise axioms between uf applications"""
        out = []
        by = {}
        for f, n, v in self.ufs:
            by.setdefault(f, []).append((n, v))
        for f, lst in by.items():
            if len(lst) > 40:
                lst = lst[:40]
            if f in ("exp", "pow10", "log10", "log", "tanh", "sigmoid", "sqrt"):
                for i in range(len(lst)):
                    for j in range(i):
                        x, y = self.cache[lst[i][0].args[1].id], self.cache[lst[j][0].args[1].id]
                        a, b = lst[i][1], lst[j][1]
                        out.append((x <= y) == (a <= b))
                        out.append((x == y) == (a == b))
            elif f == "pow":
                for i in range(len(lst)):
                    for j in range(i):
                        n1, n2 = lst[i][0], lst[j][0]
                        if n1.args[2] is n2.args[2]:
                            x, y = self.cache[n1.args[1].id], self.cache[n2.args[1].id]
                            e = self.cache[n1.args[2].id]
                            a, b = lst[i][1], lst[j][1]
                            out.append(z3.Implies(e > 0, z3.And((x <= y) == (a <= b), (x == y) == (a == b))))
                        else:
                            z = [self.cache[k.id] for k in n1.args[1:] + n2.args[1:]]
                            out.append(z3.Implies(z3.And(z[0] == z[2], z[1] == z[3]), lst[i][1] == lst[j][1]))
            else:
                for i in range(len(lst)):
                    for j in range(i):
                        n1, n2 = lst[i][0], lst[j][0]
                        if len(n1.args) != len(n2.args):
                            continue
                        ps = [self.cache[p.id] == self.cache[q.id] for p, q in zip(n1.args[1:], n2.args[1:])]
                        out.append(z3.Implies(z3.And(ps), lst[i][1] == lst[j][1]))
        # slope bounds: nearly equal arguments have nearly equal values
        for f, slope in (("sin", 1), ("cos", 1), ("tanh", 1), ("sigmoid", 1), ("exp", None)):
            lst = by.get(f, [])[:25]
            for i in range(len(lst)):
                for j in range(i):
                    k = slope
                    if k is None:
                        his = [E.interval(lst[t][0])[1] for t in (i, j)]
                        if None in his or max(his) > 10**6:
                            continue
                        k = qv(max(his))
                    x, y = self.cache[lst[i][0].args[1].id], self.cache[lst[j][0].args[1].id]
                    a, b = lst[i][1], lst[j][1]
                    d = (x - y) * k
                    out.append(z3.Or(z3.And(a - b <= d, b - a <= d), z3.And(a - b <= -d, b - a <= -d)))
        if "sin" in by and "cos" in by and self.mode == "nl":
            cs = {n.args[1].id: v for n, v in by["cos"]}
            for n, v in by["sin"]:
                w = cs.get(n.args[1].id)
                if w is not None:
                    out.append(v * v + w * w == 1)
        if "log10" in by and "pow10" in by:
            for n1, v1 in by["log10"]:
                for n2, v2 in by["pow10"]:
                    x = self.cache[n1.args[1].id]
                    e = self.cache[n2.args[1].id]
                    # pow10(e) <= x  <=>  e <= log10(x)
                    out.append((v2 <= x) == (e <= v1))
                    out.append((v2 == x) == (e == v1))
        return out


def _ceil(f):
    import math
    return math.ceil(f)


def _floor(f):
    import math
    return math.floor(f)


def _has_nonlinear(nodes):
    for n in E.topo(nodes):
        if n.op == "prod" or n.op == "uf":
            return True
        if n.op in ("idiv", "imod"):
            if not E.is_const(n.args[1]):
                return True
    return False


def _mk_solver(constraints, mode, timeout_ms):
    enc = Enc(mode)
    zs = [enc.tr(c) for c in constraints]
    ax = enc.axioms()
    if mode == "nl" and not enc.ufs and not _int_used(constraints):
        s = z3.SolverFor("QF_NRA") if _has_nonlinear(constraints) else z3.Solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for z in zs:
        s.add(z)
    # side constraints may grow while translating; add all
    for z in enc.side:
        s.add(z)
    for z in ax:
        s.add(z)
    return s, enc


def _int_used(constraints):
    for n in E.topo(constraints):
        if n.sort == "I":
            return True
    return False


def _model(s, enc, constraints):
    m = s.model()
    out = {}
    for v in E.variables(constraints):
        z = enc.cache.get(v.id)
        if z is None:
            continue
        val = m.eval(z, model_completion=True)
        if v.sort == "B":
            out[v.args[0]] = z3.is_true(val)
        elif v.sort == "I":
            out[v.args[0]] = val.as_long()
        elif z3.is_algebraic_value(val):
            a = val.approx(30)
            out[v.args[0]] = Fraction(a.numerator_as_long(), a.denominator_as_long())
        else:
            out[v.args[0]] = Fraction(val.numerator_as_long(), val.denominator_as_long())
    return out


_cache = {}


def reset():
    _cache.clear()


def check(constraints, timeout=20.0, want_model=False, kind="query", modes=("lin", "nl")):
    """-> ('unsat'|'sat'|'unknown', model or None).  'sat' from the lin
    encoding is only reported when the query is genuinely linear."""
    constraints = [c for c in constraints if c is not E.TRUE]
    if any(c is E.FALSE for c in constraints):
        return "unsat", None
    if not constraints:
        return "sat", {}
    key = (frozenset(c.id for c in constraints), want_model, modes)
    if key in _cache:
        return _cache[key]
    t0 = time.time()
    STATS["queries" if kind == "query" else "feasibility"] += 1
    res = ("unknown", None)
    nonlin = _has_nonlinear(constraints)
    try:
        if "lin" in modes:
            try:
                s, enc = _mk_solver(constraints, "lin", timeout * 1000)
                r = s.check()
                if r == z3.unsat:
                    res = ("unsat", None)
                    if kind == "query":
                        STATS["unsat_lin"] += 1
                elif r == z3.sat and not nonlin:
                    res = ("sat", _model(s, enc, constraints) if want_model else None)
            except E.TooBig:
                pass
        if res[0] == "unknown" and "nl" in modes and (nonlin or "lin" not in modes):
            s, enc = _mk_solver(constraints, "nl", timeout * 1000)
            r = s.check()
            if r == z3.unsat:
                res = ("unsat", None)
                if kind == "query":
                    STATS["unsat_nl"] += 1
            elif r == z3.sat:
                res = ("sat", _model(s, enc, constraints) if want_model else None)
    except z3.Z3Exception as e:
        res = ("unknown", str(e))
    STATS["time"] += time.time() - t0
    if kind == "query":
        STATS[res[0]] += 1
    _cache[key] = res
    return res


def slice_for(constraints, goal_vars):
    """constraints transitively sharing variables with goal_vars"""
    infos = [(c, {v.id for v in E.variables([c])}) for c in constraints]
    need = set(goal_vars)
    out = []
    changed = True
    rest = infos
    while changed:
        changed = False
        nrest = []
        for c, vs in rest:
            if vs & need:
                out.append(c)
                need |= vs
                changed = True
            else:
                nrest.append((c, vs))
        rest = nrest
    return out


def confirm(goals, timeout):
    """goals: [(a, b, tol)] claimed |a-b| <= tol for all values.  One query
    over the plain (not normalised) terms."""
    t0 = time.time()
    enc = Enc("nl")
    try:
        bad = []
        for a, b, t in goals:
            x, y = enc.tr(a), enc.tr(b)
            bad.append(z3.Or(x - y > qv(t), y - x > qv(t)))
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(z3.Or(bad))
        for z in list(enc.side) + enc.axioms():
            s.add(z)
        r = s.check()
    except (z3.Z3Exception, RecursionError):
        return "unknown", 0
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    r = str(r)
    STATS[r] += 1
    return r, len(goals)
