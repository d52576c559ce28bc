"""Detectors record, for every step, the fields at exactly their cells."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import torch
import nidn
from nidn.fdtd import Grid, LineDetector, PointSource
from nidn.fdtd.detectors import BlockDetector, CurrentDetector
import nidn.fdtd_integration.compute_spectrum_fdtd as csf

A = slice(None)


def setup(S, shape, dx=1.0):
    g = Grid(shape, grid_spacing=dx, courant_number=0.4)
    L.put(g.E, L.field(S, "E", shape), shape)
    L.put(g.H, L.field(S, "H", shape), shape)
    return g


def run(S, g, shape, n):
    """the fields after each of n steps"""
    out = []
    for _ in range(n):
        g.step()
        out.append((L.read(S, g.E, shape), L.read(S, g.H, shape)))
    return out


LINES = {
    "y": ((2, 3, 1), (1, A, 0), [(1, 0, 0), (1, 1, 0), (1, 2, 0)]),
    "y_part": ((2, 4, 1), (0, slice(1, 3), 0), [(0, 1, 0), (0, 2, 0)]),
    "y_slices": ((3, 3, 2), (slice(2, 3), slice(0, 2), slice(1, 2)), [(2, 0, 1), (2, 1, 1)]),
    "x": ((4, 2, 1), (slice(1, 4), 1, 0), [(1, 1, 0), (2, 1, 0), (3, 1, 0)]),
    "z": ((2, 2, 3), (0, 1, A), [(0, 1, 0), (0, 1, 1), (0, 1, 2)]),
    "x_only": ((3, 1, 1), (A,), [(0, 0, 0), (1, 0, 0), (2, 0, 0)]),
    "point": ((2, 2, 2), (1, 0, 1), [(1, 0, 1)]),
    "diag": ((3, 3, 1), (A, A, 0), [(0, 0, 0), (1, 1, 0), (2, 2, 0)]),
    "list": ((3, 3, 1), ([2, 0, 1], [0, 1, 2], [0, 0, 0]), [(2, 0, 0), (0, 1, 0), (1, 2, 0)]),
}


def h_line(S, where, steps):
    shape, idx, cells = LINES[where]
    g = setup(S, shape)
    d = LineDetector(name="probe")
    g[idx] = d
    other = LineDetector(name="other")
    g[0, 0, 0] = other
    want = run(S, g, shape, steps)
    v = d.detector_values()
    S.prove(g.probe is d, "a named detector is an attribute of the grid")
    S.prove(len(v["E"]) == steps and len(v["H"]) == steps, "one record per step")
    for n in range(steps):
        for f, F in (("E", want[n][0]), ("H", want[n][1])):
            got = S.elems(v[f][n])
            S.prove(len(got) == 3 * len(cells), "a line detector has one reading per cell")
            S.prove_close(got, [F[p + (c,)] for p in cells for c in range(3)], "line detector %s of step %d" % (f, n), tol=1e-9)
            S.prove_close(S.elems(other.detector_values()[f][n]), [F[(0, 0, 0, c)] for c in range(3)], "second detector", tol=1e-9)


BLOCKS = {
    "full": ((2, 2, 2), (A, A, A), (range(2), range(2), range(2))),
    "part": ((3, 4, 2), (slice(1, 3), slice(2, 4), slice(0, 1)), (range(1, 3), range(2, 4), range(0, 1))),
    "plane": ((3, 2, 2), (2, A, A), (range(2, 3), range(2), range(2))),
    "row": ((3, 3, 1), (1, slice(0, 2), 0), (range(1, 2), range(0, 2), range(1))),
}


def h_block(S, where, steps):
    shape, idx, rng = BLOCKS[where]
    g = setup(S, shape)
    d = BlockDetector(name="probe")
    g[idx] = d
    want = run(S, g, shape, steps)
    v = d.detector_values()
    S.prove(len(v["E"]) == steps and len(v["H"]) == steps, "one record per step")
    for n in range(steps):
        for f, F in (("E", want[n][0]), ("H", want[n][1])):
            r = v[f][n]
            S.prove(len(r) == len(rng[0]) and all(len(y) == len(rng[1]) and all(len(z) == len(rng[2]) for z in y) for y in r), "a block detector covers exactly its cells")
            for a, i in enumerate(rng[0]):
                for b, j in enumerate(rng[1]):
                    for c_, k in enumerate(rng[2]):
                        S.prove_close([r[a][b][c_][c] for c in range(3)], [F[(i, j, k, c)] for c in range(3)], "block detector %s of step %d" % (f, n), tol=1e-9)


CURRENTS = {
    "one": ((3, 3, 2), (slice(1, 2), slice(1, 2), slice(1, 2))),
    "two": ((3, 3, 3), (slice(1, 3), slice(2, 3), slice(1, 3))),
    "flat": ((3, 3, 1), (slice(1, 2), slice(1, 3), slice(0, 1))),
    "index": ((3, 3, 2), (2, slice(1, 3), 1)),
}


def h_current(S, where):
    shape, idx = CURRENTS[where]
    dx = S.real("dx", 1e-3, 10.0)
    g = setup(S, shape)
    g.grid_spacing = dx
    d = CurrentDetector(name="amp")
    g[idx] = d
    want = run(S, g, shape, 2)
    I = d.detector_values()["I"]
    S.prove(len(I) == 2, "one record per step")
    rng = [range(i.start, i.stop) if isinstance(i, slice) else range(i, i + 1) for i in idx]
    for n in range(2):
        H = want[n][1]
        loop = lambda i, j, k: H[(i, j - 1, k % shape[2], 0)] - H[(i, j, k % shape[2], 0)] + H[(i, j, k % shape[2], 1)] - H[(i - 1, j, k % shape[2], 1)]
        S.prove(len(I[n]) == len(rng[0]) and all(len(y) == len(rng[1]) and all(len(z) == len(rng[2]) for z in y) for y in I[n]), "a current detector covers exactly its cells")
        for a, i in enumerate(rng[0]):
            for b, j in enumerate(rng[1]):
                for c_, k in enumerate(rng[2]):
                    S.prove_close(I[n][a][b][c_], dx * 0.5 * (loop(i, j, k) + loop(i, j, k - 1)), "current is the mean circulation of H around the cell and the one below", tol=1e-8)


def h_passive(S, kind):
    """a detector does not disturb the fields"""
    shape = (3, 3, 2)
    g = setup(S, shape)
    E, H = L.read(S, g.E, shape), L.read(S, g.H, shape)
    g[{"line": (1, A, 0)}.get(kind, (slice(1, 2), slice(1, 2), slice(1, 2)))] = {"line": LineDetector, "block": BlockDetector, "current": CurrentDetector}[kind](name="d")
    g[0, 0, 0] = PointSource(period=7, amplitude=2.0)
    r = Grid(shape, grid_spacing=1.0, courant_number=0.4)
    L.put(r.E, E, shape)
    L.put(r.H, H, shape)
    r[0, 0, 0] = PointSource(period=7, amplitude=2.0)
    for _ in range(2):
        g.step()
        r.step()
        L.same(S, g.E, L.read(S, r.E, shape), shape, "a detector leaves E as it is", tol=1e-9)
        L.same(S, g.H, L.read(S, r.H, shape), shape, "a detector leaves H as it is", tol=1e-9)


def h_refuse(S):
    k = S.choose("k", [LineDetector, BlockDetector, CurrentDetector])

    def clash():
        g = Grid((3, 3, 3), grid_spacing=1.0)
        g[1, 1, :] = LineDetector(name="d")
        g[1, 1, 1] = k(name="d")

    def uneven():
        g = Grid((3, 3, 3), grid_spacing=1.0)
        g[[0, 1], [1], [2]] = k(name="d")
    S.prove(S.raises(clash, ValueError) is not None, "a taken name is refused")
    S.prove(S.raises(uneven, IndexError) is not None, "index lists of different length are refused")


def h_values(S, T, n):
    """the detector signal used for R and T: the mean of E_z over the detector"""
    class D:
        def __init__(self, E, H):
            self.v = {"E": E, "H": H}

        def detector_values(self):
            return self.v
    Et, Er, Ht, Hr = [[torch.tensor([[S.real("%s_%d_%d_%d" % (nm, t, p, c), -10, 10) for c in range(3)] for p in range(n)]) for t in range(T)] for nm in ("Et", "Er", "Ht", "Hr")]
    t, r = csf._get_detector_values(D(Et, Ht), D(Er, Hr))
    for got, E, nm in ((t, Et, "transmission"), (r, Er, "reflection")):
        got = S.elems(got)
        S.prove(len(got) == T, "one value per step")
        for i in range(T):
            e = S.elems(E[i])
            want = sum((e[3 * p + 2] for p in range(n)), 0.0) / n
            S.prove_close(got[i], want, "%s signal is the mean of E_z over the detector" % nm, tol=1e-9)


def instances(tier):
    q = tier == "quick"
    out = []
    for w in LINES:
        out.append(dict(name="line_" + w, fn=h_line, args=dict(where=w, steps=3 if q else 5), cost=10, bounds="every initial field, %d steps" % (3 if q else 5)))
    for w in BLOCKS:
        out.append(dict(name="block_" + w, fn=h_block, args=dict(where=w, steps=2 if q else 3), cost=10, bounds="every initial field, %d steps" % (2 if q else 3)))
    for w in CURRENTS:
        out.append(dict(name="current_" + w, fn=h_current, args=dict(where=w), cost=10, bounds="every initial field and spacing, 2 steps"))
    for k in ("line", "block", "current"):
        out.append(dict(name="passive_" + k, fn=h_passive, args=dict(kind=k), cost=10, bounds="every initial field, 2 steps"))
    out.append(dict(name="refuse", fn=h_refuse, bounds="each detector kind"))
    for T, n in ((3, 1), (2, 3)) if q else ((3, 1), (2, 3), (6, 5), (12, 2)):
        out.append(dict(name="values_%d_%d" % (T, n), fn=h_values, args=dict(T=T, n=n), bounds="%d steps, %d detector cells, every signal" % (T, n)))
    return out
