"""Sources inject the configured signal at their cells."""
import os, sys
import math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fdtdlib as L
import torch
import nidn
from nidn.fdtd import Grid, PointSource, LineSource, PlaneSource
from nidn.fdtd.sources import SoftArbitraryPointSource

PI = math.pi
C0 = 299792458.0


def grid(shape, dx=1e-7, C=0.5):
    return Grid(shape, grid_spacing=dx, courant_number=C)


def at_time(S, g, qmax):
    q = S.int("q", 0, qmax)
    g.time_steps_passed = q
    return q


def injected(S, g, shape):
    """field change of one step in an otherwise empty grid"""
    g.step()
    return L.read(S, g.E, shape)


def signal(S, kind, q, period_steps, period, phase, dt_h, cycle, ppw, C):
    """reference signal; returns (value, condition under which rounding could
    matter)"""
    if kind == "continuous":
        return S.sin(2 * PI * q / period_steps + phase)
    if kind == "hanning":
        f = 1.0 / period
        t = q * dt_h
        v = 0.5 * (1 - S.cos(f * t / cycle)) * S.sin(f * t)
        # the window closes after `cycle` cycles
        end = 2 * PI * cycle / (f * dt_h)
        S.assume(S.or_(q < end - 1.001, q > end + 0.001))
        return S.ite(q < end - 1, v, 0.0)
    var = (PI * (q * C / ppw - 1)) * (PI * (q * C / ppw - 1))
    S.assume(S.or_(q < 6 * ppw - 0.001, q > 6 * ppw + 0.001))
    return S.ite(q < 6 * ppw, (1 - 2 * var) * S.exp(-var), 0.0)


def params(S, kind):
    if kind == "continuous":
        p = S.int("period", 2, 400)
        return p, p
    p = S.real("period", 1e-15, 1e-13)
    return p, None


def h_point(S, kind, named):
    shape = (3, 2, 2)
    dx, C = 1e-7, 0.5
    g = grid(shape, dx, C)
    amp = S.real("amp", -5.0, 5.0)
    ph = S.real("phase", -4.0, 4.0)
    period, steps = params(S, kind)
    pos = S.choose("pos", [(0, 0, 0), (2, 1, 0), (1, 1, 1)])
    s = PointSource(period=period, amplitude=amp, phase_shift=ph, signal_type=kind, cycle=5, hanning_dt=1e-15, name="src" if named else None)
    g[pos[0], pos[1], pos[2]] = s
    q = at_time(S, g, 2000)
    E = injected(S, g, shape)
    v = amp * signal(S, kind, q, steps, period, ph, 1e-15, 5, (C0 * period) / dx, C)
    for p in L.cells(shape):
        for c in range(3):
            want = v if (p == pos and c == 2) else 0.0
            S.prove_close(E[p + (c,)], want, "%s point source" % kind, tol=1e-5)


def h_period(S):
    """a period in seconds becomes the nearest number of time steps"""
    shape = (2, 2, 1)
    g = grid(shape)
    r = S.real("r", 2.0, 9.4)
    S.assume(S.not_(S.or_(*[S.and_(r > m + 0.499, r < m + 0.501) for m in range(2, 10)])))
    dt = 0.5 * 1e-7 / C0
    g[1, 1, 0] = PointSource(period=r * dt)
    g.time_steps_passed = 1
    E = injected(S, g, shape)
    n = S.floor(r + 0.5)
    S.prove_close(E[(1, 1, 0, 2)], S.sin(2 * PI / n), "a period in seconds is rounded to whole time steps", tol=1e-6)


def weights(cells):
    mid = cells[len(cells) // 2]
    d = [sum((a - b) ** 2 for a, b in zip(p, mid)) for p in cells]
    w = [math.exp(-2.0 * (x / max(d)) ** 2) for x in d]
    return [x / sum(w) for x in w]


def h_line(S, kind, where):
    shape, idx, cells = LINES[where]
    dx, C = 1e-7, 0.5
    g = grid(shape, dx, C)
    amp = S.real("amp", -5.0, 5.0)
    ph = S.real("phase", -4.0, 4.0)
    period, steps = params(S, kind)
    g[idx] = LineSource(period=period, amplitude=amp, phase_shift=ph, signal_type=kind, cycle=5, hanning_dt=1e-15)
    q = at_time(S, g, 2000)
    E = injected(S, g, shape)
    v = amp * signal(S, kind, q, steps, period, ph, 1e-15, 5, (C0 * period) / dx, C)
    w = dict(zip(cells, weights(cells)))
    for p in L.cells(shape):
        for c in range(3):
            want = v * w[p] if (p in w and c == 2) else 0.0
            S.prove_close(E[p + (c,)], want, "%s line source: bell profile of total weight one along its cells" % kind, tol=1e-5)


A = slice(None)
LINES = {
    "y": ((2, 3, 1), (1, A, 0), [(1, 0, 0), (1, 1, 0), (1, 2, 0)]),
    "x": ((5, 2, 1), (slice(1, 5), 1, 0), [(i, 1, 0) for i in range(1, 5)]),
    "z": ((2, 2, 4), (0, 1, A), [(0, 1, k) for k in range(4)]),
    "diag": ((3, 3, 2), (A, A, 0), [(i, i, 0) for i in range(3)]),
    "list": ((3, 3, 2), ([0, 2, 1], [0, 1, 2], [1, 0, 1]), [(0, 0, 1), (2, 1, 0), (1, 2, 1)]),
}


def h_add(S):
    """point and line sources add to the field that is there"""
    shape = (2, 3, 1)
    g = grid(shape)
    for p in L.cells(shape):
        g.E[p + (2,)] = S.real("e_%d_%d_%d" % p, -1.0, 1.0)
    before = L.read(S, g.E, shape)
    which = S.choose("which", ["point", "line", "two"])
    amp = S.real("amp", -5.0, 5.0)
    if which in ("point", "two"):
        g[0, 1, 0] = PointSource(period=8, amplitude=amp)
    if which in ("line", "two"):
        g[1, :, 0] = LineSource(period=6, amplitude=amp)
    g.time_steps_passed = 1
    g.step()
    E = L.read(S, g.E, shape)
    w = dict(zip([(1, 0, 0), (1, 1, 0), (1, 2, 0)], weights([(1, 0, 0), (1, 1, 0), (1, 2, 0)])))
    for p in L.cells(shape):
        want = before[p + (2,)]
        if p == (0, 1, 0) and which != "line":
            want = want + amp * math.sin(2 * PI / 8)
        if p in w and which != "point":
            want = want + amp * w[p] * math.sin(2 * PI / 6)
        S.prove_close(E[p + (2,)], want, "sources add to the field", tol=1e-6)


def h_plane(S, pol, normal):
    shape = [2, 3, 2]
    shape[normal] = 3
    shape = tuple(shape)
    g = grid(shape)
    amp = S.real("amp", -5.0, 5.0)
    ph = S.real("phase", -4.0, 4.0)
    per = S.int("period", 2, 400)
    idx = [A, A, A]
    idx[normal] = 1
    g[tuple(idx)] = PlaneSource(period=per, amplitude=amp, phase_shift=ph, polarization="xyz"[pol])
    E, H = L.field(S, "E", shape, -1.0, 1.0), L.field(S, "H", shape, -1.0, 1.0)
    L.put(g.E, E, shape)
    L.put(g.H, H, shape)
    q = at_time(S, g, 1000)
    g.step()
    v = amp * S.sin(2 * PI * q / per + ph)
    hp = 3 - pol - normal
    E1 = L.step_E(E, H, 0.5, L.const(shape, 1.0), L.const(shape, 0.0), shape)
    for p in L.cells(shape):
        if p[normal] == 1:
            E1[p + (pol,)] = v
    L.same(S, g.E, E1, shape, "plane source sets the electric field along its polarisation on its plane", tol=1e-7)
    H1 = L.step_H(E1, H, 0.5, L.const(shape, 1.0), shape)
    for p in L.cells(shape):
        if p[normal] == 1:
            H1[p + (hp,)] = v
    L.same(S, g.H, H1, shape, "plane source sets the magnetic field across", tol=1e-7)


def h_soft(S, named):
    """soft source: the waveform value of each step, corrected by the drop over
    its impedance"""
    shape = (3, 3, 2)
    dx = 1.0
    g = Grid(shape, grid_spacing=dx, courant_number=0.4)
    w = [S.real("w%d" % i, -1.0, 1.0) for i in range(2)]
    z = S.choose("z", [0.0, 0.75])
    g[1, 1, 1] = SoftArbitraryPointSource(torch.tensor(w), name="soft" if named else None, impedance=z)
    prev = L.const(shape, 0.0)
    H = L.const(shape, 0.0)
    cur = 0.0
    for n in range(3):
        E = L.step_E(prev, H, 0.4, L.const(shape, 1.0), L.const(shape, 0.0), shape)
        v = w[n] if n < 2 else 0.0
        E[(1, 1, 1, 2)] = E[(1, 1, 1, 2)] + (v + z * cur) / dx
        H = L.step_H(E, H, 0.4, L.const(shape, 1.0), shape)
        g.step()
        L.same(S, g.E, E, shape, "soft source adds its waveform and the drop over its impedance", tol=1e-8)
        loop = lambda k: (H[(1, 0, k, 0)] - H[(1, 1, k, 0)] + H[(1, 1, k, 1)] - H[(0, 1, k, 1)]) * dx
        cur = 0.5 * (loop(1) + loop(0))
        prev = E


def h_refuse(S):
    def pt(i):
        g = grid((3, 3, 3))
        g[i] = PointSource()

    def ln(i):
        g = grid((3, 3, 3))
        g[i] = LineSource()

    def pl(i, pol="z"):
        g = grid((3, 3, 3))
        g[i] = PlaneSource(polarization=pol)

    def name(k):
        g = grid((3, 3, 3))
        g[0, 0, 0] = PointSource(name="s")
        g[(1, A, 0) if k is LineSource else ((1, A, A) if k is PlaneSource else (1, 1, 1))] = k(name="s")
    fs = [lambda: pt((A, 1, 1)), lambda: pt((1, A, 1)), lambda: pt((1, 1, A)), lambda: ln((1, slice(1, 2), 1)), lambda: ln((1, 1, 1)),
          lambda: pl((A, A, A)), lambda: pl((1, 1, A)), lambda: pl((A, A, 1)), lambda: pl((1, A, A), "x"), lambda: pl((A, 1, A), "y"),
          lambda: name(PointSource), lambda: name(LineSource), lambda: name(PlaneSource)]
    f = S.choose("f", fs)
    S.prove(S.raises(f, ValueError) is not None, "a source of impossible extent, polarisation or taken name is refused")


def instances(tier):
    q = tier == "quick"
    out = []
    for k in ("continuous", "hanning", "ricker"):
        for nm in (False, True):
            out.append(dict(name="point_%s%s" % (k, "_named" if nm else ""), fn=h_point, args=dict(kind=k, named=nm), cost=10,
                            bounds="any step up to 2000, any period, amplitude and phase; 3 positions"))
        for w in LINES:
            if q and w in ("z",) and k != "continuous":
                continue
            out.append(dict(name="line_%s_%s" % (k, w), fn=h_line, args=dict(kind=k, where=w), cost=10, bounds="any step up to 2000, any period, amplitude and phase"))
    for pol in range(3):
        for n in range(3):
            if n != pol:
                out.append(dict(name="plane_%s_%s" % ("xyz"[pol], "xyz"[n]), fn=h_plane, args=dict(pol=pol, normal=n), cost=20, bounds="every field state; any step, period, amplitude and phase"))
    out.append(dict(name="period", fn=h_period, bounds="2..9.4 steps"))
    out.append(dict(name="add", fn=h_add, bounds="every field state"))
    for nm in (False, True):
        out.append(dict(name="soft" + ("_named" if nm else ""), fn=h_soft, args=dict(named=nm), cost=10, bounds="every waveform of 2 values, 3 steps"))
    out.append(dict(name="refuse", fn=h_refuse, bounds="13 wrong placements"))
    return out
