"""Scene construction: layers, detectors, source and absorbing layers sit where
the configuration says."""
import math
import operator
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import torch
import nidn
from nidn.fdtd_integration.init_fdtd import init_fdtd
from nidn.fdtd_integration.compute_fdtd_grid_scaling import _compute_fdtd_grid_scaling

PI = 3.14159265358979


def base(S, thick, pml, free, det, scale, source="line", pulse="continuous", pos=(0.3, 0.1)):
    cfg = nidn.load_default_cfg()
    cfg.N_layers = len(thick)
    cfg.PER_LAYER_THICKNESS = list(thick)
    cfg.FDTD_pml_thickness, cfg.FDTD_free_space_distance = pml, free
    cfg.FDTD_gridpoints_from_material_to_detector = det
    cfg.FDTD_source_type, cfg.FDTD_pulse_type = source, pulse
    cfg.FDTD_source_position = list(pos)
    cfg.FDTD_grid_scaling = torch.tensor(scale)
    return cfg


def eps_tensor(S, n):
    e = torch.zeros((1, 1, n), dtype=torch.complex128)
    vals = []
    for i in range(n):
        v = S.cplx("eps%d" % i, 0.5, 20.0, 0.0, 5.0)
        e[0, 0, i] = v
        vals.append(v)
    return e, vals


def trunc(S, v):
    """value of int(v) for v > 0 away from integers (both sides agree on the
    rounding)"""
    return operator.index(S.floor(v))


def clear(S, v):
    """not within rounding of an integer"""
    f = S.floor(v)
    S.assume(S.and_(v - f > 1e-6, v - f < 1 - 1e-6))


def h_layers(S, n, scale, lo, hi):
    """symbolic layer thicknesses"""
    thick = [S.real("t%d" % i, lo, hi) for i in range(n)]
    pml, free, det = 0.21, 0.53, 1
    edges = [scale * (pml + free)]
    for t in thick:
        edges.append(edges[-1] + scale * t)
    total = scale * (2 * pml + 2 * free) + sum(scale * t for t in thick)
    for v in edges[1:] + [total]:
        clear(S, v)
    lam = S.real("lam", 0.3e-6, 30e-6)
    cfg = base(S, thick, pml, free, det, scale)
    eps, ev = eps_tensor(S, n)
    g, td, rd = init_fdtd(cfg, include_object=True, wavelength=lam, permittivity=eps)
    Nx = trunc(S, total)
    S.prove_eq(g.shape[0], Nx, "grid length = scaling * (layers + two free spaces + two absorbing layers)")
    cut = [trunc(S, v) for v in edges]
    shape = tuple(g.shape)
    inv = L.read(S, g.inverse_permittivity, shape)
    ab = L.read(S, g.absorption_factor, shape)
    C = g.courant_number
    dx = 1e-6 / scale
    for p in L.cells(shape):
        layer = [i for i in range(n) if cut[i] <= p[0] < cut[i + 1]]
        q = p + (2,)
        if not layer:
            S.prove_close(inv[q], 1.0, "outside the layers there is vacuum", tol=1e-9)
            S.prove_close(ab[q], 0.0, "outside the layers nothing is absorbed", tol=1e-9)
        else:
            e = ev[layer[-1]]
            S.prove_close(inv[q], 1.0 / S.re(e), "each layer carries the real part of its permittivity in its own cells", tol=1e-6)
            S.prove_close(ab[q], PI * C * dx / lam * S.im(e) / S.re(e), "each layer absorbs according to the imaginary part of its permittivity", tol=1e-5)
    # detectors see the cells next to the stack
    detect(S, g, td, rd, cut[0] - det, cut[-1] + det)


def detect(S, g, td, rd, xr, xt):
    shape = tuple(g.shape)
    for p in L.cells(shape):
        g.E[p + (2,)] = S.real("e_%d_%d_%d" % p, -1.0, 1.0)
    g.step()
    E = L.read(S, g.E, shape)
    for d, x, what in ((td, xt, "transmission detector right behind the stack"), (rd, xr, "reflection detector right in front of the stack")):
        rec = d.detector_values()["E"]
        S.prove_eq(len(rec), 1, "one record per time step")
        want = [E[(x, j, 0, c)] for j in range(shape[1]) for c in range(3)]
        S.prove_close(rec[0], want, what + " records the field of its cells", tol=1e-9)


def h_detectors(S, det, scale):
    thick = [0.31]
    pml, free = 0.21, S.real("free", 0.45, 0.95)
    a, b = scale * (pml + free), scale * (pml + free + thick[0])
    total = scale * (2 * pml + 2 * free + thick[0])
    for v in (a, b, total):
        clear(S, v)
    cfg = base(S, thick, pml, free, det, scale)
    g, td, rd = init_fdtd(cfg, include_object=False, wavelength=1e-6, permittivity=None)
    S.prove_eq(g.shape[0], trunc(S, total), "grid length")
    S.prove_close(g.inverse_permittivity, [1.0], "the reference simulation is empty")
    S.prove_close(g.absorption_factor, [0.0], "the reference simulation absorbs nothing")
    detect(S, g, td, rd, trunc(S, a) - det, trunc(S, b) + det)


def h_source(S, kind, scale):
    """position of the source and of the absorbing layers"""
    t = S.intval("t", 1, 4)
    pml = (t + S.real("frac", 1e-5, 1 - 1e-5)) / scale
    x = S.real("sx", 0.3, 0.9)
    y = S.real("sy", 0.0, 0.29)
    for v in (scale * x, scale * (2 * pml + 2 * 0.53 + 0.31)):
        clear(S, v)
    S.assume(S.or_(y <= 0, y > 0.01))
    if kind == "point":
        S.assume(S.and_(*[S.or_(scale * y < m - 1e-6, scale * y > m + 1e-6) for m in (1, 2)]))
    cfg = base(S, [0.31], pml, 0.53, 1, scale, source=kind, pos=(x, y))
    lam = 1e-6
    g, td, rd = init_fdtd(cfg, include_object=False, wavelength=lam, permittivity=None)
    shape = tuple(g.shape)
    S.prove_eq(shape[1], 3, "three cells across")
    g.time_steps_passed = 1
    g.step()
    E = L.read(S, g.E, shape)
    xs = trunc(S, scale * x)
    ys = trunc(S, scale * y)
    period = round(lam / (g.courant_number * 1e-6 / scale))
    amp = S.sin(2 * PI / period)
    n = 0.0
    for p in L.cells(shape):
        on = p[0] == xs and (kind == "line" or p[1] == ys)
        if not on:
            S.prove_close(E[p + (2,)], 0.0, "no source outside its cells", tol=1e-9)
        else:
            n = n + E[p + (2,)]
        for c in (0, 1):
            S.prove_close(E[p + (c,)], 0.0, "the source is polarised along z", tol=1e-9)
    # the periodic boundary across y runs before the source
    S.prove_close(n, amp, "the source injects its amplitude at its own position", tol=1e-6)
    # absorbing layers
    g.reset()
    ref = [L.PmlRef(0, low, t, shape, g.courant_number, math.exp) for low in (True, False)]
    H = L.const(shape, 0.0)
    for p in L.cells(shape):
        if p[1] == 1:
            v = S.real("h_%d" % p[0], -1.0, 1.0)
            H[p + (1,)] = v
            g.H[p + (1,)] = v
    g.step()
    E1, H1 = L.full_step(L.const(shape, 0.0), H, g.courant_number, L.const(shape, 1.0), L.const(shape, 0.0), L.const(shape, 1.0), shape, pmls=ref, periodic=(1,))
    L.same(S, g.E, E1, shape, "absorbing layers of the configured thickness on both ends, periodic across", tol=1e-6)


def h_scaling(S):
    """resolution: at least ten cells per smallest wavelength and the
    configured minimum"""
    cfg = nidn.load_default_cfg()
    lam = S.real("lam", 0.05e-6, 50e-6)
    m = S.int("m", 1, 200)
    cfg.physical_wavelength_range = [lam, 60e-6]
    cfg.FDTD_min_gridpoints_per_unit_magnitude = m
    s = S.elems(_compute_fdtd_grid_scaling(cfg))[0]
    S.prove(s * lam >= 10 * 1e-6 * (1 - 1e-6), "at least ten cells per smallest wavelength")
    S.prove(s >= m - 1e-9, "at least the configured number of cells per micrometre")
    S.prove(S.or_(s <= m + 1e-9, s * lam <= 10 * 1e-6 * (1 + 1e-6)), "no finer than needed")


def h_bad(S):
    cfg = base(S, [0.3], 0.2, 0.5, 1, 10.0, source=S.choose("s", ["plane", "", "Line"]))
    S.prove(S.raises(lambda: init_fdtd(cfg, include_object=False, wavelength=1e-6, permittivity=None), ValueError) is not None, "an unknown source type is refused")


def instances(tier):
    q = tier == "quick"
    out = []
    for n, lo, hi in ([(1, 0.1, 0.6), (2, 0.15, 0.35), (3, 0.15, 0.25), (5, 0.16, 0.19)] if q else [(1, 0.1, 1.2), (2, 0.05, 0.5), (3, 0.05, 0.3), (4, 0.15, 0.25)]):
        out.append(dict(name="layers_%d" % n, fn=h_layers, args=dict(n=n, scale=10.0, lo=lo, hi=hi), cost=30 * n, bounds="%d layers of %.2f..%.2f um at 10 cells/um; every permittivity and wavelength" % (n, lo, hi)))
    out.append(dict(name="layers_fine", fn=h_layers, args=dict(n=2, scale=17.5, lo=0.05, hi=0.15), cost=30, bounds="2 layers at 17.5 cells/um"))
    for d in (1, 2, 3):
        out.append(dict(name="detectors_%d" % d, fn=h_detectors, args=dict(det=d, scale=10.0), cost=20, bounds="free space 0.45..0.95 um, detectors %d cells from the stack" % d))
    for k in ("line", "point"):
        out.append(dict(name="source_" + k, fn=h_source, args=dict(kind=k, scale=10.0), cost=60, bounds="%s source at every position in 0.3..0.9 x 0..0.29 um, absorbing layer of 1..4 cells" % k))
    out.append(dict(name="scaling", fn=h_scaling, bounds="smallest wavelength 50 nm..50 um, minimum 1..200"))
    out.append(dict(name="bad", fn=h_bad, bounds="3 names"))
    return out
