"""What the FDTD update conserves: the divergence of the fields and the energy."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import nidn
from nidn.fdtd import Grid, AbsorbingObject, Object


def div(F, p, s, shape):
    return sum(L.diff(F, p, c, c, s, shape) for c in range(3))


def h_div(S, shape, obj):
    """no magnetic charge appears; without loss no electric charge either"""
    eps = S.real("eps", 0.5, 12.0)
    mu = S.real("mu", 0.5, 12.0)
    g = Grid(shape, grid_spacing=1e-7, permittivity=eps, permeability=mu, courant_number=0.5)
    e2 = eps
    box = None
    if obj:
        e2 = S.real("e2", 0.5, 12.0)
        box = ((1, 2), (0, shape[1]), (0, shape[2]))
        g[1:2, :, :] = AbsorbingObject(e2, 0.0)
    E, H = L.field(S, "E", shape), L.field(S, "H", shape)
    L.put(g.E, E, shape)
    L.put(g.H, H, shape)
    g.step()
    E1, H1 = L.read(S, g.E, shape), L.read(S, g.H, shape)
    keep = lambda F, w: {k: F[k] * w(k) for k in F}
    wm = lambda k: mu

    def we(k):
        if obj and k[0] == 1:
            if (k[3] == 1 and k[1] == shape[1] - 1 and shape[1] > 1) or (k[3] == 2 and k[2] == shape[2] - 1 and shape[2] > 1):
                return eps
            return e2
        return eps
    B0, B1, D0, D1 = keep(H, wm), keep(H1, wm), keep(E, we), keep(E1, we)
    for p in L.cells(shape):
        if all(v < n - 1 for v, n in zip(p, shape)):
            S.prove_close(div(B1, p, 1, shape), div(B0, p, 1, shape), "the divergence of B does not change", tol=1e-8)
        if all(v > 0 for v in p):
            S.prove_close(div(D1, p, -1, shape), div(D0, p, -1, shape), "the divergence of D does not change without conduction", tol=1e-8)


def h_energy(S, shape, lossy):
    """energy of a closed box (conducting low walls, magnetic high walls)"""
    eps = S.real("eps", 0.5, 12.0)
    mu = S.real("mu", 0.5, 12.0)
    C = 0.5
    dx = 1e-7
    g = Grid(shape, grid_spacing=dx, permittivity=eps, permeability=mu, courant_number=C)
    sig = 0.0
    if lossy:
        sig = S.real("sig", 0.0, 1e6)
        g[:, :, :] = AbsorbingObject(eps, sig)
    f = 0.5 * C * sig * dx * L.ETA0 / eps
    E, H = L.field(S, "E", shape, -1.0, 1.0), L.field(S, "H", shape, -1.0, 1.0)
    for (i, j, k, c) in list(E):
        p = (i, j, k)
        for d in range(3):
            if shape[d] == 1:
                continue
            if p[d] == 0 and d != c:
                E[p + (c,)] = 0.0
            if p[d] == 0 and d == c:
                H[p + (c,)] = 0.0
            if p[d] == shape[d] - 1 and d != c:
                H[p + (c,)] = 0.0
            if p[d] == shape[d] - 1 and d == c:
                E[p + (c,)] = 0.0
    L.put(g.E, E, shape)
    L.put(g.H, H, shape)
    g.step()
    E1, H1 = L.read(S, g.E, shape), L.read(S, g.H, shape)
    g.step()
    E2, H2 = L.read(S, g.E, shape), L.read(S, g.H, shape)
    for k in E:
        p = k[:3]
        if any(p[d] == 0 and d != k[3] and shape[d] > 1 for d in range(3)) or (p[k[3]] == shape[k[3]] - 1 and shape[k[3]] > 1):
            S.prove_close(E2[k], 0.0, "conducting walls keep their tangential electric field zero", tol=1e-9)
    e = lambda F: sum(eps * F[k] * F[k] for k in F)
    m = lambda A, B: sum(mu * A[k] * B[k] for k in A)
    W1 = e(E1) + m(H, H1)
    W2 = e(E2) + m(H1, H2)
    if not lossy:
        S.prove_close(W2, W1, "the energy of a closed lossless box is constant", tol=1e-7)
    else:
        S.prove_close(W1 - W2, sum(eps * f * (E1[k] + E2[k]) * (E1[k] + E2[k]) for k in E1), "the energy lost in a step is the Joule heat (never negative)", tol=1e-4)


def instances(tier):
    q = tier == "quick"
    out = []
    nm = lambda s: "%d_%d_%d" % s
    for s in [(3, 3, 3), (2, 3, 4), (4, 2, 2)] if q else [(3, 3, 3), (2, 3, 4), (4, 2, 2), (4, 4, 4), (5, 3, 4)]:
        for o in (False, True):
            out.append(dict(name="div_%s%s" % (nm(s), "_obj" if o else ""), fn=h_div, args=dict(shape=s, obj=o), cost=s[0] * s[1] * s[2],
                            bounds="grid %dx%dx%d, every field state" % s))
    for s in [(3, 3, 1), (4, 1, 1), (1, 3, 3), (3, 1, 3), (3, 3, 2), (3, 3, 3)] if q else [(3, 3, 1), (4, 1, 1), (1, 3, 3), (3, 1, 3), (3, 3, 2), (3, 3, 3), (5, 4, 1), (4, 3, 3)]:
        out.append(dict(name="energy_" + nm(s), fn=h_energy, args=dict(shape=s, lossy=False), cost=10 * s[0] * s[1] * s[2],
                        bounds="grid %dx%dx%d, closed box, every field state, two steps" % s))
    for s in [(3, 3, 1), (4, 1, 1), (1, 3, 3)]:
        out.append(dict(name="loss_" + nm(s), fn=h_energy, args=dict(shape=s, lossy=True), cost=10 * s[0] * s[1] * s[2],
                        bounds="grid %dx%dx%d, closed box, conducting medium, two steps" % s))
    return out
