"""One FDTD step is the Yee update of Maxwell's equations."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import torch
import nidn
from nidn.fdtd import Grid, AbsorbingObject, Object
from nidn.utils.global_constants import SPEED_OF_LIGHT


def maxC(shape):
    return float(sum(n > 1 for n in shape)) ** -0.5


def make(S, shape, dx=None):
    C = S.real("C", 0.05, maxC(shape))
    eps = S.real("eps", 0.5, 12.0)
    mu = S.real("mu", 0.5, 12.0)
    g = Grid(shape, grid_spacing=dx if dx is not None else 1e-7, permittivity=eps, permeability=mu, courant_number=C)
    return g, C, eps, mu


def state(S, g, shape):
    E, H = L.field(S, "E", shape), L.field(S, "H", shape)
    L.put(g.E, E, shape)
    L.put(g.H, H, shape)
    return E, H


def h_background(S, shape):
    """from every field state, in every homogeneous medium"""
    g, C, eps, mu = make(S, shape)
    E, H = state(S, g, shape)
    n = g.time_steps_passed
    g.step()
    E1 = L.step_E(E, H, C, L.const(shape, 1.0 / eps), L.const(shape, 0.0), shape)
    H1 = L.step_H(E1, H, C, L.const(shape, 1.0 / mu), shape)
    L.same(S, g.E, E1, shape, "E advances by the curl of H")
    L.same(S, g.H, H1, shape, "H advances by the curl of the new E")
    S.prove_eq(g.time_steps_passed, n + 1, "one step counted")
    S.observe("E", g.E)


def h_object(S, shape, box, kind):
    """an object placed in the grid changes the update exactly in its cells"""
    dx = 1e-7
    g, C, eps, mu = make(S, shape, dx)
    e2 = S.real("e2", 0.5, 12.0)
    sig = S.real("sig", 0.0, 1e6) if kind == "absorbing" else 0.0
    (x0, x1), (y0, y1), (z0, z1) = box
    g[x0:x1, y0:y1, z0:z1] = AbsorbingObject(e2, sig) if kind == "absorbing" else Object(e2)
    E, H = state(S, g, shape)
    inv, ab = L.const(shape, 1.0 / eps), L.const(shape, 0.0)
    for p in L.cells(shape):
        if all(lo <= v < hi for v, (lo, hi) in zip(p, box)):
            for c in range(3):
                lo, hi = box[c]
                # the component normal to the far face belongs to the cell beyond
                if not (hi - lo > 1 and p[c] == hi - 1):
                    inv[p + (c,)] = 1.0 / e2
                ab[p + (c,)] = 0.5 * C * inv[p + (c,)] * sig * dx * L.ETA0
    g.step()
    E1 = L.step_E(E, H, C, inv, ab, shape)
    H1 = L.step_H(E1, H, C, L.const(shape, 1.0 / mu), shape)
    L.same(S, g.E, E1, shape, "E advances with the permittivity and conductivity of its cell", tol=2e-5)
    L.same(S, g.H, H1, shape, "H advances by the curl of the new E", tol=1e-4)


def h_cellwise(S, shape, box, kind):
    """an object whose permittivity (and conductivity) differs from cell to cell, placed with open and negative limits"""
    import torch
    dx = 1e-7
    g, C, eps, mu = make(S, shape, dx)
    n = [hi - lo for lo, hi in box]
    arr = lambda t, lo, hi: {(i, j, k): S.real("%s_%d_%d_%d" % (t, i, j, k), lo, hi) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])}
    ten = lambda d: torch.tensor([[[d[(i, j, k)] for k in range(n[2])] for j in range(n[1])] for i in range(n[0])])
    e2 = arr("e2", 1.0, 12.0)
    sig = arr("sig", 0.0, 1e6) if kind == "absorbing" else None
    sl = tuple(slice(lo if lo else None, None if hi == m else hi - m) for (lo, hi), m in zip(box, shape))
    g[sl] = AbsorbingObject(ten(e2), ten(sig)[:, :, :, None]) if kind == "absorbing" else Object(ten(e2))
    E, H = state(S, g, shape)
    inv, ab = L.const(shape, 1.0 / eps), L.const(shape, 0.0)
    for p in L.cells(shape):
        if all(lo <= v < hi for v, (lo, hi) in zip(p, box)):
            q = tuple(v - lo for v, (lo, hi) in zip(p, box))
            for c in range(3):
                lo, hi = box[c]
                if not (hi - lo > 1 and p[c] == hi - 1):
                    inv[p + (c,)] = 1.0 / e2[q]
                if sig:
                    ab[p + (c,)] = 0.5 * C * inv[p + (c,)] * sig[q] * dx * L.ETA0
    g.step()
    E1 = L.step_E(E, H, C, inv, ab, shape)
    H1 = L.step_H(E1, H, C, L.const(shape, 1.0 / mu), shape)
    L.same(S, g.E, E1, shape, "E advances with the permittivity and conductivity of its cell", tol=2e-5)
    L.same(S, g.H, H1, shape, "H advances by the curl of the new E", tol=1e-4)


def h_run(S, shape):
    """running n steps is n single steps; reset restarts"""
    n = S.intval("n", 0, 2)
    C = 0.5 * maxC(shape)
    a = Grid(shape, grid_spacing=1e-7, courant_number=C)
    b = Grid(shape, grid_spacing=1e-7, courant_number=C)
    E, H = state(S, a, shape)
    L.put(b.E, E, shape)
    L.put(b.H, H, shape)
    a.run(n, progress_bar=False)
    for _ in range(n):
        b.step()
    S.prove_close(a.E, b.E, "run(n) is n steps (E)")
    S.prove_close(a.H, b.H, "run(n) is n steps (H)")
    S.prove_eq(a.time_steps_passed, n, "run(n) counts n steps")
    S.prove_close(a.time_passed / a.time_step, float(n), "time passed is the number of steps times the time step", tol=1e-6)
    a.reset()
    S.prove_close(a.E, [0.0], "reset clears E")
    S.prove_close(a.H, [0.0], "reset clears H")
    S.prove_eq(a.time_steps_passed, 0, "reset restarts the clock")


def h_runtime(S):
    """running for a time in seconds"""
    g = Grid((3, 2, 1), grid_spacing=1e-7, courant_number=0.5)
    r = S.real("r", 0.01, 3.9)
    S.assume(S.not_(S.or_(*[S.and_(r > m - 0.001, r < m + 0.001) for m in (1, 2, 3)])))
    g.run(r * g.time_step, progress_bar=False)
    n = g.time_steps_passed
    S.prove(S.and_(n - r < 1, r - n < 1), "running for a time in seconds makes that many time steps, less than one off")


def h_linear(S, shape):
    g = [Grid(shape, grid_spacing=1e-7, permittivity=2.0, courant_number=0.4) for _ in range(3)]
    a = S.real("a", -3.0, 3.0)
    E1, H1 = L.field(S, "E", shape), L.field(S, "H", shape)
    E2, H2 = L.field(S, "F", shape), L.field(S, "G", shape)
    for q, (e, h) in zip(g, ((E1, H1), (E2, H2), ({k: E1[k] + a * E2[k] for k in E1}, {k: H1[k] + a * H2[k] for k in H1}))):
        L.put(q.E, e, shape)
        L.put(q.H, h, shape)
        q.step()
    for name in ("E", "H"):
        u, v, w = [S.elems(getattr(q, name)) for q in g]
        S.prove_close(w, [p + a * r for p, r in zip(u, v)], "superposition of solutions is a solution (%s)" % name)


def h_courant(S, shape):
    """stability limit"""
    C = S.real("C", 0.0, 2.0)
    lim = maxC(shape)
    r = S.raises(lambda: Grid(shape, courant_number=C), ValueError)
    if r is not None:
        S.prove(C >= lim - 1e-9, "a stable Courant number is accepted")
    else:
        g = S.result
        S.prove(C <= lim + 1e-9, "an unstable Courant number is refused")
        S.prove_close(g.courant_number, C, "the given Courant number is used")
    d = Grid(shape)
    S.prove(d.courant_number < lim, "the default Courant number is stable")
    S.prove(d.courant_number > 0.5 * lim, "the default Courant number is close to the limit")


def h_units(S):
    """distances and times in metres and seconds become grid units"""
    dx = S.real("dx", 1e-9, 1e-5)
    C = S.real("C", 0.1, 0.5)
    n = [S.real("n%d" % i, (1.6, 1.2, 0.6)[i], 3.9) for i in range(3)]
    near = [S.or_(*[S.and_(v > m + 0.5 - 1e-6, v < m + 0.5 + 1e-6) for m in range(0, 5)]) for v in n]
    S.assume(S.not_(S.or_(*near)))
    g = Grid((n[0] * dx, n[1] * dx, n[2] * dx), grid_spacing=dx, courant_number=C)
    for want, got in zip(n, g.shape):
        S.prove(S.and_(got - want <= 0.5 + 1e-6, want - got <= 0.5 + 1e-6), "a length in metres becomes the nearest number of cells")
    S.prove_close(g.time_step * SPEED_OF_LIGHT / dx, C, "time step = Courant number * spacing / c", tol=1e-9)
    S.prove_eq(S.shape(g.E) == tuple(g.shape) + (3,), True, "one E vector per cell")
    S.prove_eq(S.shape(g.H) == tuple(g.shape) + (3,), True, "one H vector per cell")
    for t in (g.E, g.H):
        S.prove_close(t, [0.0], "a new grid has no fields")


def h_badshape(S):
    s = S.choose("s", [(3, 3), (3,), (3, 3, 3, 3)])
    S.prove(S.raises(lambda: Grid(s), ValueError) is not None, "a shape that is not three-dimensional is refused")


def instances(tier):
    q = tier == "quick"
    out = []
    shapes = [(3, 3, 3), (1, 3, 4), (4, 3, 1), (2, 1, 5), (6, 1, 1)] if q else [(3, 3, 3), (1, 3, 4), (4, 3, 1), (2, 1, 5), (6, 1, 1), (4, 4, 4), (5, 3, 4), (8, 3, 1), (1, 1, 9), (1, 9, 1)]
    nm = lambda s: "%d_%d_%d" % s
    for s in shapes:
        n = s[0] * s[1] * s[2]
        out.append(dict(name="step_" + nm(s), fn=h_background, args=dict(shape=s), cost=n, bounds="grid %dx%dx%d, every field state, permittivity, permeability, Courant number" % s))
    objs = [((4, 3, 1), ((1, 3), (0, 3), (0, 1))), ((3, 4, 2), ((0, 2), (1, 3), (0, 2))), ((2, 3, 4), ((0, 1), (1, 2), (1, 4)))]
    if not q:
        objs += [((4, 4, 4), ((1, 3), (1, 3), (1, 3))), ((8, 3, 1), ((2, 6), (0, 3), (0, 1)))]
    for s, b in objs:
        for kind in ("absorbing", "object"):
            out.append(dict(name="%s_%s" % (kind, nm(s)), fn=h_object, args=dict(shape=s, box=b, kind=kind), cost=s[0] * s[1] * s[2] * 2,
                            bounds="grid %dx%dx%d with one object at %s" % (s + (b,))))
    for s, b in [((4, 3, 1), ((1, 3), (0, 3), (0, 1))), ((3, 4, 2), ((0, 2), (1, 3), (0, 2)))]:
        for kind in ("absorbing", "object"):
            out.append(dict(name="cells_%s_%s" % (kind, nm(s)), fn=h_cellwise, args=dict(shape=s, box=b, kind=kind), cost=s[0] * s[1] * s[2] * 2,
                            bounds="grid %dx%dx%d with one object at %s, a permittivity per cell" % (s + (b,))))
    for s in ([(3, 2, 2)] if q else [(3, 2, 2), (4, 3, 1), (3, 3, 3)]):
        out.append(dict(name="run_" + nm(s), fn=h_run, args=dict(shape=s), bounds="grid %dx%dx%d, 0..2 steps" % s))
        out.append(dict(name="linear_" + nm(s), fn=h_linear, args=dict(shape=s), bounds="grid %dx%dx%d" % s))
    for s in [(3, 1, 1), (3, 3, 1), (3, 3, 3), (1, 2, 2)]:
        out.append(dict(name="courant_" + nm(s), fn=h_courant, args=dict(shape=s), bounds="grid %dx%dx%d, Courant number in [0,2]" % s))
    out.append(dict(name="units", fn=h_units, bounds="spacing 1 nm..10 um, 1..4 cells per side"))
    out.append(dict(name="runtime", fn=h_runtime, bounds="0..3.9 time steps"))
    out.append(dict(name="badshape", fn=h_badshape, bounds="3 shapes"))
    return out
