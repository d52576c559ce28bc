"""reference for the FDTD checks: the Yee scheme written cell by cell"""
import torch
import itertools

ETA0 = 4e-7 * 3.14159265358979323846 * 299792458.0


def cells(shape):
    return itertools.product(*[range(n) for n in shape])


def field(S, name, shape, lo=-10.0, hi=10.0):
    """{(i,j,k,c): scalar}"""
    return {(i, j, k, c): S.real("%s_%d_%d_%d_%d" % (name, i, j, k, c), lo, hi) for i, j, k in cells(shape) for c in range(3)}


def const(shape, v):
    return {(i, j, k, c): v for i, j, k in cells(shape) for c in range(3)}


def put(target, F, shape):
    """write a field dict into a grid tensor"""
    for p, v in F.items():
        target[p] = v


def read(S, t, shape):
    el = S.elems(t)
    out, q = {}, 0
    for i, j, k in cells(shape):
        for c in range(3):
            out[(i, j, k, c)] = el[q]
            q += 1
    return out


def at(F, p, d, s):
    q = list(p)
    q[d] += s
    return F[tuple(q)]


def diff(F, p, comp, d, s, shape, per=()):
    """F_comp difference along d towards s (+1: forward, -1: backward), zero
    where the neighbour is outside the grid"""
    i, j, k = p
    n = (i, j, k)[d] + s
    if n < 0 or n >= shape[d]:
        return 0.0
    here = F[(i, j, k, comp)]
    q = [i, j, k]
    q[d] = n
    there = F[(q[0], q[1], q[2], comp)]
    return (there - here) if s > 0 else (here - there)


def curl(F, p, c, s, shape):
    """component c of the curl at cell p (s=-1: of H at E positions, s=+1: of
    E at H positions)"""
    a, b = (c + 1) % 3, (c + 2) % 3
    return diff(F, p, b, a, s, shape) - diff(F, p, a, b, s, shape)


def step_E(E, H, C, inv_eps, absorb, shape):
    out = {}
    for p in cells(shape):
        for c in range(3):
            q = p + (c,)
            f = absorb[q]
            out[q] = (E[q] * (1 - f) + C * inv_eps[q] * curl(H, p, c, -1, shape)) / (1 + f)
    return out


def step_H(E, H, C, inv_mu, shape):
    return {p + (c,): H[p + (c,)] - C * inv_mu[p + (c,)] * curl(E, p, c, 1, shape) for p in cells(shape) for c in range(3)}


def same(S, t, F, shape, msg, tol=1e-9):
    got = read(S, t, shape)
    keys = sorted(F)
    S.prove_close([got[k] for k in keys], [F[k] for k in keys], msg, tol=tol)


class PmlRef:
    """convolutional PML of thickness t on side (axis, low/high)"""

    def __init__(self, axis, low, t, shape, C, exp, a=1e-8):
        self.axis, self.low, self.t, self.shape, self.C = axis, low, t, shape, C
        n = shape[axis]
        sig = lambda v: 40.0 * v ** 3 / (t + 1) ** 4
        self.cells = [p for p in cells(shape) if (p[axis] < t if low else p[axis] >= n - t)]
        self.pos = {p: (p[axis] if low else p[axis] - (n - t)) for p in self.cells}
        bc = lambda s: (exp(-(s + a) * C), (exp(-(s + a) * C) - 1.0) * s / (s + a))
        self.E, self.H = [], []
        for i in range(t):
            self.E.append(bc(sig(t - 0.5 - i) if low else sig(i + 0.5)))
            self.H.append(bc(0.0 if i == t - 1 else (sig(t - 1.0 - i) if low else sig(i + 1.0))))
        self.psiE = {(p, c): 0.0 for p in self.cells for c in range(3)}
        self.psiH = {(p, c): 0.0 for p in self.cells for c in range(3)}

    def _advance(self, psi, coef, F, s):
        """psi[p,c]: convolved derivative (along the axis) that enters component c"""
        ax = self.axis
        out = {}
        for p in self.cells:
            b, c_ = coef[self.pos[p]]
            nb = list(p)
            nb[ax] += s
            for c in range(3):
                v = psi[(p, c)] * b
                if c != ax and tuple(nb) in self.pos:
                    other = 3 - ax - c
                    v = v + c_ * diff(F, p, other, ax, s, self.shape)
                out[(p, c)] = v
        return out

    def sign(self, c):
        """component c of the curl holds +d_a F_b with (c,a,b) cyclic, -d_b F_a"""
        return 1.0 if (c + 1) % 3 == self.axis else -1.0

    def before_E(self, H):
        self.psiE = self._advance(self.psiE, self.E, H, -1)

    def before_H(self, E):
        self.psiH = self._advance(self.psiH, self.H, E, 1)

    def after_E(self, E, inv):
        for p in self.cells:
            for c in range(3):
                phi = self.sign(c) * self.psiE[(p, c)] if c != self.axis else 0.0
                E[p + (c,)] = E[p + (c,)] + self.C * inv[p + (c,)] * phi

    def after_H(self, H, inv):
        for p in self.cells:
            for c in range(3):
                phi = self.sign(c) * self.psiH[(p, c)] if c != self.axis else 0.0
                H[p + (c,)] = H[p + (c,)] - self.C * inv[p + (c,)] * phi


def full_step(E, H, C, inv_eps, absorb, inv_mu, shape, pmls=(), periodic=()):
    """one step with boundaries in the order given"""
    for b in pmls:
        b.before_E(H)
    E = step_E(E, H, C, inv_eps, absorb, shape)
    for b in pmls:
        b.after_E(E, inv_eps)
    for d in periodic:
        wrap(E, d, 0, shape[d] - 1, shape)
    for b in pmls:
        b.before_H(E)
    H = step_H(E, H, C, inv_mu, shape)
    for b in pmls:
        b.after_H(H, inv_mu)
    for d in periodic:
        wrap(H, d, shape[d] - 1, 0, shape)
    return E, H


def wrap(F, d, to, frm, shape):
    for p in cells(shape):
        if p[d] == to:
            q = list(p)
            q[d] = frm
            for c in range(3):
                F[p + (c,)] = F[tuple(q) + (c,)]
