"""Periodic boundaries."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import nidn
from nidn.fdtd import Grid, PML, PeriodicBoundary


def place(g, axis, where=0):
    s = [slice(None)] * 3
    s[axis] = where
    g[s[0], s[1], s[2]] = PeriodicBoundary()


def h_wrap(S, shape, axes, where):
    """after every step the two ends agree and everything else is the plain update"""
    eps = S.real("eps", 0.5, 12.0)
    mu = S.real("mu", 0.5, 12.0)
    C = 0.5
    g = Grid(shape, grid_spacing=1e-7, permittivity=eps, permeability=mu, courant_number=C)
    for a in axes:
        place(g, a, where)
    E, H = L.field(S, "E", shape), L.field(S, "H", shape)
    L.put(g.E, E, shape)
    L.put(g.H, H, shape)
    ie, im, z = L.const(shape, 1.0 / eps), L.const(shape, 1.0 / mu), L.const(shape, 0.0)
    g.step()
    E, H = L.full_step(E, H, C, ie, z, im, shape, periodic=axes)
    L.same(S, g.E, E, shape, "E of a periodic grid")
    L.same(S, g.H, H, shape, "H of a periodic grid")


def h_shift(S, shape, axis):
    """translation invariance: on a periodic ring the update commutes with a
    shift by one cell"""
    n = shape[axis] - 1          # the last cell repeats the first
    C = 0.5
    E, H = L.field(S, "E", shape), L.field(S, "H", shape)

    def ring(F):
        out = dict(F)
        L.wrap(out, axis, n, 0, shape)
        return out

    def shifted(F):
        out = {}
        for p in L.cells(shape):
            q = list(p)
            q[axis] = (p[axis] + 1) % n
            for c in range(3):
                out[p + (c,)] = F[tuple(q) + (c,)]
        return ring(out)
    E, H = ring(E), ring(H)
    res = []
    for e, h in ((E, H), (shifted(E), shifted(H))):
        g = Grid(shape, grid_spacing=1e-7, permittivity=2.0, courant_number=C)
        place(g, axis)
        L.put(g.E, e, shape)
        L.put(g.H, h, shape)
        g.step()
        g.step()
        res.append((L.read(S, g.E, shape), L.read(S, g.H, shape)))
    (e0, h0), (e1, h1) = res
    for nm, a, b in (("E", e0, e1), ("H", h0, h1)):
        sh = shifted(a)
        keys = sorted(sh)
        S.prove_close([b[k] for k in keys], [sh[k] for k in keys], "shifting a periodic state shifts the solution (%s)" % nm)


def h_energy(S, shape, axis):
    """a ring loses no energy"""
    n = shape[axis] - 1
    eps = S.real("eps", 0.5, 12.0)
    mu = S.real("mu", 0.5, 12.0)
    g = Grid(shape, grid_spacing=1e-7, permittivity=eps, permeability=mu, courant_number=0.5)
    place(g, axis)
    E, H = L.field(S, "E", shape, -1.0, 1.0), L.field(S, "H", shape, -1.0, 1.0)
    for F in (E, H):
        L.wrap(F, axis, n, 0, shape)
    L.put(g.E, E, shape)
    L.put(g.H, H, shape)
    g.step()
    E1, H1 = L.read(S, g.E, shape), L.read(S, g.H, shape)
    g.step()
    E2, H2 = L.read(S, g.E, shape), L.read(S, g.H, shape)
    ks = [k for k in E if k[axis] < n]
    e = lambda F: sum(eps * F[k] * F[k] for k in ks)
    m = lambda A, B: sum(mu * A[k] * B[k] for k in ks)
    S.prove_close(e(E2) + m(H1, H2), e(E1) + m(H, H1), "the energy of a lossless ring is constant", tol=1e-7)


def h_refuse(S):
    axis = S.intval("axis", 0, 2)

    def twice():
        g = Grid((4, 4, 4))
        place(g, axis)
        place(g, axis, -1)
    S.prove(S.raises(twice, AttributeError) is not None, "a second boundary on the same axis is refused")

    def inside():
        g = Grid((4, 4, 4))
        place(g, axis, 2)
    S.prove(S.raises(inside, IndexError) is not None, "a periodic boundary inside the grid is refused")


def instances(tier):
    q = tier == "quick"
    out = []
    nm = lambda s: "%d_%d_%d" % s
    for s in [(3, 4, 2), (2, 3, 3)] if q else [(3, 4, 2), (2, 3, 3), (4, 3, 1), (4, 4, 4)]:
        for axes in [(0,), (1,), (2,), (0, 1), (1, 2), (2, 0), (0, 1, 2)]:
            if any(s[a] == 1 for a in axes):
                continue
            for w in (0, -1):
                out.append(dict(name="wrap_%s_%s%s" % (nm(s), "".join("xyz"[a] for a in axes), "" if w == 0 else "_end"), fn=h_wrap, args=dict(shape=s, axes=axes, where=w), cost=5,
                                bounds="grid %dx%dx%d, every field state" % s))
    for a in range(3):
        for n in ((4, 5) if q else (3, 4, 5, 7)):
            s = [1, 1, 1]
            s[a] = n
            out.append(dict(name="shift_%s_%d" % ("xyz"[a], n), fn=h_shift, args=dict(shape=tuple(s), axis=a), cost=10, bounds="ring of %d cells, two steps from every state" % (n - 1)))
            out.append(dict(name="energy_%s_%d" % ("xyz"[a], n), fn=h_energy, args=dict(shape=tuple(s), axis=a), cost=20, bounds="ring of %d cells, two steps from every state" % (n - 1)))
    out.append(dict(name="refuse", fn=h_refuse, bounds="three axes"))
    return out
