"""Perfectly matched layers on the six sides of the grid."""
import os, sys
import math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import nidn
from nidn.fdtd import Grid, PML, PeriodicBoundary, Object


def place(g, axis, low, t, **kw):
    s = [slice(None)] * 3
    s[axis] = slice(0, t) if low else slice(-t, None)
    g[s[0], s[1], s[2]] = PML(**kw)


def make(S, shape, sym_c):
    eps = S.real("eps", 0.5, 12.0)
    mu = S.real("mu", 0.5, 12.0)
    C = 0.5
    return Grid(shape, grid_spacing=1e-7, permittivity=eps, permeability=mu, courant_number=C), C, eps, mu


def start(S, g, shape):
    E, H = L.field(S, "E", shape, -1.0, 1.0), L.field(S, "H", shape, -1.0, 1.0)
    L.put(g.E, E, shape)
    L.put(g.H, H, shape)
    return E, H


def h_pml(S, shape, sides, steps, a=None, obj=None):
    """fields after a few steps from every state"""
    g, C, eps, mu = make(S, shape, False)
    ref = []
    for axis, low, t in sides:
        place(g, axis, low, t, **({} if a is None else {"a": a}))
        ref.append(L.PmlRef(axis, low, t, shape, C, math.exp, **({} if a is None else {"a": a})))
    E, H = start(S, g, shape)
    ie, im = L.const(shape, 1.0 / eps), L.const(shape, 1.0 / mu)
    z = L.const(shape, 0.0)
    if obj is not None:
        e2 = S.real("e2", 0.5, 12.0)
        g[obj[0]:obj[1], :, :] = Object(e2)
        for p in L.cells(shape):
            for c in range(3):
                edge = (c == 0 and p[0] == obj[1] - 1 and obj[1] - obj[0] > 1) or (c > 0 and p[c] == shape[c] - 1 and shape[c] > 1)
                if obj[0] <= p[0] < obj[1] and not edge:
                    ie[p + (c,)] = 1.0 / e2
    for n in range(steps):
        g.step()
        E, H = L.full_step(E, H, C, ie, z, im, shape, pmls=ref)
        L.same(S, g.E, E, shape, "E in and around the absorbing layer, step %d" % (n + 1), tol=1e-9)
        L.same(S, g.H, H, shape, "H in and around the absorbing layer, step %d" % (n + 1), tol=1e-9)


def h_only_there(S, shape, axis, low, t):
    """the layer changes the update only in its own cells"""
    g, C, eps, mu = make(S, shape, False)
    place(g, axis, low, t)
    E, H = start(S, g, shape)
    g.step()
    E1 = L.step_E(E, H, C, L.const(shape, 1.0 / eps), L.const(shape, 0.0), shape)
    got = L.read(S, g.E, shape)
    n = shape[axis]
    out = [k for k in E1 if (k[axis] >= t if low else k[axis] < n - t)]
    S.prove_close([got[k] for k in out], [E1[k] for k in out], "cells outside the absorbing layer follow the plain update")
    H1 = L.step_H(got, H, C, L.const(shape, 1.0 / mu), shape)
    goth = L.read(S, g.H, shape)
    S.prove_close([goth[k] for k in out], [H1[k] for k in out], "cells outside the absorbing layer follow the plain update (H)")


def h_reset(S, shape, axis, low, t):
    """a reset grid behaves like a new one"""
    g, C, eps, mu = make(S, shape, False)
    place(g, axis, low, t)
    E, H = start(S, g, shape)
    g.step()
    g.step()
    g.reset()
    f = Grid(shape, grid_spacing=1e-7, permittivity=eps, permeability=mu, courant_number=C)
    place(f, axis, low, t)
    A, B = L.field(S, "A", shape, -1.0, 1.0), L.field(S, "B", shape, -1.0, 1.0)
    for q in (g, f):
        L.put(q.E, A, shape)
        L.put(q.H, B, shape)
        q.step()
    S.prove_close(g.E, f.E, "after a reset the grid behaves like a new one (E)")
    S.prove_close(g.H, f.H, "after a reset the grid behaves like a new one (H)")


def h_refuse(S):
    def twice(axis, low):
        g = Grid((5, 5, 5))
        place(g, axis, low, 2)
        place(g, axis, low, 1)
    axis = S.intval("axis", 0, 2)
    low = S.choose("low", [True, False])
    S.prove(S.raises(lambda: twice(axis, low), AttributeError) is not None, "a second layer on the same side is refused")

    def interior():
        g = Grid((5, 5, 5))
        s = [slice(None)] * 3
        s[axis] = slice(1, 3)
        g[s[0], s[1], s[2]] = PML()
    S.prove(S.raises(interior, IndexError) is not None, "a layer away from the border is refused")

    def index():
        g = Grid((5, 5, 5))
        s = [slice(None)] * 3
        s[axis] = 0
        g[s[0], s[1], s[2]] = PML()
    S.prove(S.raises(index, ValueError) is not None, "a layer needs a slice")

    def clash():
        g = Grid((5, 5, 5))
        place(g, axis, low, 2)
        s = [slice(None)] * 3
        s[axis] = 0
        g[s[0], s[1], s[2]] = PeriodicBoundary()
    S.prove(S.raises(clash, AttributeError) is not None, "a side cannot be absorbing and periodic")


SIDES = [(a, l) for a in range(3) for l in (True, False)]


def instances(tier):
    q = tier == "quick"
    out = []
    for axis, low in SIDES:
        nm = "xyz"[axis] + ("low" if low else "high")
        for t in ((2, 3) if q else (1, 2, 3, 4)):
            shape = [2, 2, 2]
            shape[axis] = t + 2
            shape = tuple(shape)
            for steps in ((2,) if q else (2, 3)):
                out.append(dict(name="pml_%s_t%d_s%d" % (nm, t, steps), fn=h_pml, args=dict(shape=shape, sides=[(axis, low, t)], steps=steps), cost=20 * t * steps,
                                bounds="layer of %d cells on a %dx%dx%d grid, %d steps from every field state" % ((t,) + shape + (steps,))))
        shape = [2, 3, 2]
        shape[axis] = 5
        out.append(dict(name="only_%s" % nm, fn=h_only_there, args=dict(shape=tuple(shape), axis=axis, low=low, t=2), cost=20, bounds="layer of 2 cells, every field state"))
        shape = [2, 2, 1]
        shape[axis] = 4
        out.append(dict(name="reset_%s" % nm, fn=h_reset, args=dict(shape=tuple(shape), axis=axis, low=low, t=2), cost=20, bounds="layer of 2 cells, two steps, reset, one step"))
    both = [((6, 2, 1), [(0, True, 2), (0, False, 2)], 3)]
    if not q:
        both += [((5, 5, 1), [(0, True, 2), (1, False, 2)], 2), ((2, 5, 5), [(1, True, 2), (2, True, 2)], 2), ((8, 1, 1), [(0, True, 3), (0, False, 3)], 5)]
    for s, sides, steps in both:
        out.append(dict(name="two_%d_%d_%d" % s, fn=h_pml, args=dict(shape=s, sides=sides, steps=steps), cost=100, bounds="two layers %s, %d steps" % (sides, steps)))
    for axis, low in SIDES:
        nm = "xyz"[axis] + ("low" if low else "high")
        for t in ((11, 18) if q else (1, 7, 11, 24)):
            shape = [1, 1, 1]
            shape[axis] = t + 3
            out.append(dict(name="thick_%s_t%d" % (nm, t), fn=h_pml, args=dict(shape=tuple(shape), sides=[(axis, low, t)], steps=2, a=0.25 if axis == 1 else None), cost=30,
                            bounds="layer of %d cells on a one-dimensional grid, 2 steps from every field state" % t))
    for low in (True, False):
        out.append(dict(name="object_%s" % ("low" if low else "high"), fn=h_pml, args=dict(shape=(5, 2, 1), sides=[(0, low, 2)], steps=2, obj=(0, 2) if low else (3, 5)), cost=40,
                        bounds="object reaching into the layer, 2 steps"))
    out.append(dict(name="refuse", fn=h_refuse, bounds="six sides"))
    return out
