"""compute_spectrum: the configured solver, one (R, T) pair per frequency, each
from the permittivities of that frequency."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import torch
import nidn
from nidn.fdtd import Grid
from nidn.trcwa.trcwa import TRCWA
from nidn.trcwa.compute_target_frequencies import compute_target_frequencies
import nidn.fdtd_integration.compute_spectrum_fdtd as csf

COEF = "calculate_transmission_reflection_coefficients"
WAVE = (0.25e-6, 0.5e-6)
SHAPE = [0.0, 0.0, 0.6, -0.6] + [1.0, -1.0] * 40


def base(solver, shape, thick):
    cfg = nidn.load_default_cfg()
    cfg.solver = solver
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = shape
    cfg.PER_LAYER_THICKNESS = list(thick)
    cfg.physical_wavelength_range = list(WAVE)
    cfg.FDTD_pml_thickness, cfg.FDTD_free_space_distance = 0.106, 0.106
    cfg.FDTD_source_position = [0.12, 0.01]
    cfg.FDTD_niter = len(SHAPE)
    cfg.FDTD_min_gridpoints_per_unit_magnitude = 10
    cfg.TRCWA_NG = 3
    cfg.target_reflectance_spectrum = [0.0] * shape[3]
    cfg.target_transmittance_spectrum = [0.0] * shape[3]
    cfg.target_frequencies = compute_target_frequencies(WAVE[0], WAVE[1], shape[3], cfg.freq_distribution)
    return cfg


def eps(S, shape, lo=1.0, hi=3.0):
    e = torch.zeros(shape, dtype=torch.complex128)
    v = {}
    for p in ((x, y, l, f) for x in range(shape[0]) for y in range(shape[1]) for l in range(shape[2]) for f in range(shape[3])):
        v[p] = S.cplx("eps_%d_%d_%d_%d" % p, lo, hi, 0.0, 1.0)
        e[p] = v[p]
    return e, v


def wavelengths(n):
    """equidistant in frequency from the longest wavelength"""
    f = [1.0 / WAVE[1] + (1.0 / WAVE[0] - 1.0 / WAVE[1]) * i / (n - 1) for i in range(n)] if n > 1 else [1.0 / WAVE[1]]
    return [1.0 / x for x in f]


def h_fdtd(S, layers, nf, single, twice=False):
    """the fields of a run are replaced by signals that identify the scene"""
    n, scale = layers, 40.0
    shape = (1, 1, n, nf)
    thick = [0.1 + 0.05 * i for i in range(n)] if not single else [0.1]
    cfg = base("FDTD", shape, thick)
    e, v = eps(S, shape)
    before = S.elems(e)
    full = thick if not single else thick * n
    mids, x = [], 0.212
    for t in full:
        mids.append(int(scale * (x + t / 2)))
        x += t
    runs = []

    def amplitudes(grid):
        """(transmitted, reflected) amplitude of a scene"""
        Nx = grid.shape[0]
        inv = L.read(S, grid.inverse_permittivity, tuple(grid.shape))
        e0 = [1.0 / inv[(m, 1, 0, 2)] for m in mids]
        period = grid.sources[0].period
        per = period * 1e-3   # in steps
        a = sum(((k + 1) * 0.05 * q for k, q in enumerate(e0)), 0.0) / n + 0.5 * per
        b = sum(((n - k) * 0.03 * q for k, q in enumerate(e0)), 0.0) / n + 0.3 * per
        empty = not grid.objects
        return (1.0, 1.0) if empty else (a, 1.0 + b)

    def run(self, total_time, progress_bar=True):
        runs.append(total_time)
        a, b = amplitudes(self)
        d = sorted(self.detectors, key=lambda q: q.x[0])
        for det, k in ((d[-1], a), (d[0], b)):
            for t in range(total_time):
                w = SHAPE[t]
                z = torch.zeros((len(det.x), 3))
                for p in range(len(det.x)):
                    z[p, 2] = k * w
                det.E.append(z)
                det.H.append(z)

    def coef(transmission_signals, reflection_signals, wavelength, cfg):
        t = transmission_signals[1][4] / transmission_signals[0][4]
        r = (reflection_signals[1][4] - reflection_signals[0][4]) / reflection_signals[0][4]
        return t * t, r * r
    S.patch(Grid, "run", run)
    if hasattr(csf, COEF):
        S.patch(csf, COEF, coef)
    for _ in range(2 if twice else 1):
        R, T = nidn.compute_spectrum(e, cfg)
        S.prove(len(R) == nf and len(T) == nf, "one reflectance and transmittance per frequency")
        wl = wavelengths(nf)
        dt = 1e-6 / scale / 299792458.0 * 0.99 / 2 ** 0.5
        for i in range(nf):
            per = 1e-3 * int(wl[i] / 299792458.0 / dt + 0.5)
            e0 = [S.re(v[(0, 0, k, i)]) for k in range(n)]
            a = sum(((k + 1) * 0.05 * q for k, q in enumerate(e0)), 0.0) / n + 0.5 * per
            b = sum(((n - k) * 0.03 * q for k, q in enumerate(e0)), 0.0) / n + 0.3 * per
            S.prove_close(T[i], a * a, "FDTD transmittance belongs to the permittivities and wavelength of its frequency", tol=1e-6)
            S.prove_close(R[i], b * b, "FDTD reflectance belongs to the permittivities and wavelength of its frequency", tol=1e-6)
    S.prove(all(q == len(SHAPE) for q in runs), "every simulation has the configured number of time steps")
    S.prove_close(S.elems(e), before, "the permittivities are not changed", tol=0.0)


def h_trcwa(S, shape, single=False):
    """the solution of a stack is replaced by numbers that identify it"""
    Nx, Ny, n, nf = shape
    thick = [S.real("d%d" % i, 0.01, 5.0) for i in range(1 if single else n)]
    top, bottom = S.real("top", 1.0, 9.0), S.real("bottom", 1.0, 9.0)
    cfg = base("TRCWA", shape, [1.0])
    cfg.PER_LAYER_THICKNESS = list(thick)
    cfg.TRCWA_TOP_LAYER_EPS, cfg.TRCWA_BOTTOM_LAYER_EPS = top, bottom
    cfg.TRCWA_L_grid = [[0.1, 0.0], [0.0, 0.12]]
    stacks = {}
    e, v = eps(S, shape)
    before = S.elems(e)
    seen = {}

    def geteps(self, ep_all):
        seen[id(self)] = ep_all

    def adder(real):
        def add(self, thickness, *a, **k):
            eps = k.get("epsilon", a[0] if a else None) if real is uniform else None
            stacks.setdefault(id(self), []).append((thickness, eps, self))
            return real(self, thickness, *a, **k)
        return add
    uniform, grid = TRCWA.Add_LayerUniform, TRCWA.Add_LayerGrid
    S.patch(TRCWA, "Add_LayerUniform", adder(uniform))
    S.patch(TRCWA, "Add_LayerGrid", adder(grid))

    def solve(self, normalize=0, byorder=0):
        f = self.freq.real if not callable(getattr(self.freq, "real", None)) else torch.real(self.freq)
        if Nx * Ny == 1:
            layers = [S.re(S.elems(self.Uniform_ep_list[k + 1])[0]) for k in range(n)]
        else:
            g = seen[id(self)]
            layers = [S.re(g[Nx - 1, 0, k]) for k in range(n)]
        a = sum(((k + 1) * q for k, q in enumerate(layers)), 0.0)
        return torch.tensor(a + f), torch.tensor(a - f)
    S.patch(TRCWA, "RT_Solve", solve)
    S.patch(TRCWA, "GridLayer_geteps", geteps)
    R, T = nidn.compute_spectrum(e, cfg)
    S.prove(len(R) == nf and len(T) == nf, "one reflectance and transmittance per frequency")
    full = thick * n if single else thick
    S.prove(len(stacks) == nf, "one stack per frequency")
    for stack in stacks.values():
        S.prove(len(stack) == n + 2, "the configured layers between the two outer media")
        S.prove_close(S.elems(stack[0][1])[0], top, "the medium above the stack", tol=1e-5)
        S.prove_close(S.elems(stack[-1][1])[0], bottom, "the medium below the stack", tol=1e-5)
        for k in range(n):
            S.prove_close(S.elems(stack[k + 1][0])[0], full[k], "every layer has its own thickness", tol=1e-5)
        t = stack[0][2]
        for m, lat in enumerate((t.L1, t.L2)):
            S.prove_close(S.elems(lat), cfg.TRCWA_L_grid[m], "the lattice is the configured one", tol=1e-9)
    wl = wavelengths(nf)
    for i in range(nf):
        a = sum(((k + 1) * S.re(v[(Nx - 1, 0, k, i)]) for k in range(n)), 0.0)
        S.prove_close(R[i], a + 1e-6 / wl[i], "TRCWA reflectance belongs to its frequency", tol=1e-6)
        S.prove_close(T[i], a - 1e-6 / wl[i], "TRCWA transmittance belongs to its frequency", tol=1e-6)
    S.prove_close(S.elems(e), before, "the permittivities are not changed", tol=0.0)


def h_nan(S):
    shape = (1, 1, 2, 2)
    cfg = base("TRCWA", shape, [0.1, 0.2])
    e, v = eps(S, shape)
    l, f = S.intval("layer", 0, 1), S.intval("freq", 0, 1)
    nan = float("nan")
    e[0, 0, l, f] = S.choose("nan", [complex(nan, 0.0), complex(0.0, nan), complex(nan, nan)])
    S.prove(S.raises(lambda: nidn.compute_spectrum(e, cfg), ValueError) is not None, "a permittivity that is not a number is refused")


def h_refuse(S):
    shape = (2, 2, 2, 2)
    cfg = base("TRCWA", shape, [0.1, 0.2])
    S.patch(TRCWA, "RT_Solve", lambda self, normalize=0, byorder=0: (torch.tensor(0.0), torch.tensor(0.0)))
    S.patch(TRCWA, "GridLayer_geteps", lambda self, e: None)
    k = S.choose("axis", [0, 1, 2, 3])
    d = S.choose("by", [-1, 1])
    s = list(shape)
    s[k] += d
    e = torch.ones(tuple(s), dtype=torch.complex128)
    S.prove(S.raises(lambda: nidn.compute_spectrum(e, cfg), AssertionError) is not None, "a permittivity grid of another size than configured is refused")


def h_invalid(S):
    """an invalid configuration reaches no solver"""
    which = S.choose("which", ["solver", "thickness", "nfreq"])
    shape = (1, 1, 2, 2)
    cfg = base(S.choose("solver", ["TRCWA", "FDTD"]), shape, [0.1, 0.2])
    if which == "solver":
        cfg.solver = "RCWA"
    elif which == "thickness":
        cfg.PER_LAYER_THICKNESS = [0.1, S.real("t", -1.0, 0.0)]
    else:
        cfg.N_freq = S.int("n", -5, 0)
    e, v = eps(S, shape)
    called = []

    def never(self, *a, **k):
        called.append(1)
        return torch.tensor(0.0), torch.tensor(0.0)
    S.patch(Grid, "run", never)
    S.patch(TRCWA, "RT_Solve", never)
    S.prove(S.raises(lambda: nidn.compute_spectrum(e, cfg), ValueError, TypeError, KeyError, AssertionError, RuntimeError) is not None, "an invalid configuration is refused")
    S.prove(not called, "and nothing is simulated")


def instances(tier):
    q = tier == "quick"
    out = []
    for n, nf, s in ((1, 1, False), (1, 3, False), (2, 2, False), (2, 2, True), (6, 1, False), (1, 7, False)) if q else ((1, 1, False), (1, 3, False), (2, 2, False), (2, 2, True), (3, 5, False), (4, 2, True), (3, 3, True)):
        out.append(dict(name="fdtd_%d_%d%s" % (n, nf, "_same" if s else ""), fn=h_fdtd, args=dict(layers=n, nf=nf, single=s), cost=30,
                        bounds="%d layers, %d frequencies, every permittivity" % (n, nf)))
    out.append(dict(name="fdtd_twice", fn=h_fdtd, args=dict(layers=2, nf=2, single=True, twice=True), cost=30, bounds="2 layers, 2 frequencies; the same configuration used twice"))
    for sh in ((1, 1, 1, 1), (1, 1, 2, 3), (2, 2, 2, 2), (1, 1, 7, 1), (1, 1, 1, 9), (2, 1, 6, 1)) if q else ((1, 1, 1, 1), (1, 1, 2, 3), (2, 2, 2, 2), (4, 4, 3, 2), (1, 1, 5, 5), (2, 4, 1, 3)):
        out.append(dict(name="trcwa_%d_%d_%d_%d" % sh, fn=h_trcwa, args=dict(shape=sh), cost=20, bounds="%dx%d pixels, %d layers, %d frequencies, every permittivity" % sh))
    for sh in ((1, 1, 3, 2), (2, 2, 2, 1)):
        out.append(dict(name="trcwa_%d_%d_%d_%d_same" % sh, fn=h_trcwa, args=dict(shape=sh, single=True), cost=20, bounds="one common thickness"))
    out.append(dict(name="nan", fn=h_nan, bounds="each position of a 2x2 grid"))
    out.append(dict(name="refuse", fn=h_refuse, bounds="each axis one too long or short"))
    out.append(dict(name="invalid", fn=h_invalid, bounds="three kinds of invalid entries"))
    return out
