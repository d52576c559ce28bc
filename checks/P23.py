"""RCWA of uniform stacks: reflectance and transmittance of the textbook
multilayer formula; energy is conserved."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import nidn
from nidn.trcwa.trcwa import TRCWA

PI = 3.141592653589793
LAT = ([0.1, 0.0], [0.0, 0.1])


def one(S, t):
    return S.elems(t)[0]


def stack(freq, layers, ng=2, theta=0.0, phi=0.0, amps=(0, 0, 1, 0), direction="forward"):
    """layers: [(thickness, eps tensor)]"""
    t = TRCWA(ng, LAT[0], LAT[1], freq, theta, phi, verbose=0)
    for d, e in layers:
        t.Add_LayerUniform(d, e)
    t.Init_Setup()
    t.MakeExcitationPlanewave(*amps, order=0, direction=direction)
    return t


def abs2(S, z):
    return S.re(z) * S.re(z) + S.im(z) * S.im(z)


def airy(S, omega, layers):
    """(R, T) of a stack at normal incidence by the recursion over interfaces;
    layers: [(thickness, eps tensor)], first and last are the outer media.
    R and T refer to the top of the first and the top of the last medium."""
    q = [torch.sqrt(e * omega ** 2) for _, e in layers]
    E = [one(S, torch.exp(1j * x * d)) for x, (d, _) in zip(q, layers)]
    q = [one(S, x) for x in q]
    n = len(layers)
    r, t = None, None
    for j in reversed(range(n - 1)):
        rr = (q[j] - q[j + 1]) / (q[j] + q[j + 1])
        tt = (q[j] + q[j]) / (q[j] + q[j + 1])
        if r is None:
            r, t = rr, tt
        else:
            ph = E[j + 1] * E[j + 1] * r
            den = ph * rr + 1
            r, t = (rr + ph) / den, tt * t * E[j + 1] / den
    om = one(S, torch.tensor(1.0) * omega)
    n0, nN = q[0] / om, q[-1] / om
    r = r * E[0] * E[0]
    t = t * E[0]
    return abs2(S, r), S.re(nN) / S.re(n0) * abs2(S, t)


def pick(S, name, options):
    """one of several exact values"""
    return S.exact(S.choose(name, options))


def lossless(S, n, table=False):
    """any thicknesses; any refractive indices, or every choice from a table"""
    out = []
    for j in range(n):
        m = pick(S, "n%d" % j, [1.5, 3.25, 2.125]) if table else S.real("n%d" % j, 1.0, 5.0)
        out.append((S.real("d%d" % j, 0.01, 10.0), torch.tensor(m * m)))
    return out


def lossy(S, n):
    out = []
    for j in range(n):
        m = pick(S, "n%d" % j, [1.5 + 0.25j, 0.25 + 2.5j])
        out.append((S.real("d%d" % j, 0.01, 10.0), torch.tensor(m * m)))
    return out


def outer(S, name, vary):
    m = 1.0
    if vary == "any":
        m = S.real(name, 1.0, 4.0)
    elif vary:
        m = pick(S, name, [1.0, 1.75])
    return (1.0, torch.tensor(m * m))


def h_energy(S, n, ng, vary, table):
    S.algebra()
    f = S.real("f", 0.05, 1.5)
    t = stack(f, [outer(S, "top", vary)] + lossless(S, n, table) + [outer(S, "bottom", vary)], ng=ng)
    R, T = t.RT_Solve(normalize=1)
    S.prove_close(R + T, 1.0, "a lossless stack reflects and transmits all energy", tol=1e-6)


def h_formula(S, n, loss, vary, table):
    S.algebra()
    f = S.real("f", 0.05, 1.5)
    layers = [outer(S, "top", vary)] + (lossy(S, n) if loss else lossless(S, n, table)) + [outer(S, "bottom", vary)]
    t = stack(f, layers)
    R, T = t.RT_Solve(normalize=1)
    r, tr = airy(S, t.omega, layers)
    S.prove_close(R, r, "reflectance of the multilayer formula", tol=1e-6)
    S.prove_close(T, tr, "transmittance of the multilayer formula", tol=1e-6)


def h_pol(S):
    """every polarisation carries its own power"""
    S.algebra()
    f = S.real("f", 0.05, 1.5)
    p, s = S.real("p", -1.0, 1.0), S.real("s", -1.0, 1.0)
    pp, sp = S.real("pphase", -3.0, 3.0), S.real("sphase", -3.0, 3.0)
    layers = [outer(S, "", False)] + lossless(S, 1) + [outer(S, "", False)]
    R, T = stack(f, layers, amps=(p, pp, s, sp)).RT_Solve(normalize=1)
    r, t = airy(S, 2 * PI * f, layers)
    S.prove_close(R, r * (p * p + s * s), "reflected power of any polarisation", tol=1e-6)
    S.prove_close(R + T, p * p + s * s, "total power of any polarisation", tol=1e-6)


def h_backward(S, n, loss):
    """light from below sees the stack upside down (the normalisation refers to
    the first medium, so both outer media are the same)"""
    S.algebra()
    f = S.real("f", 0.05, 1.5)
    top = bottom = outer(S, "outer", True)
    layers = lossy(S, n) if loss else lossless(S, n, True)
    R, T = stack(f, [top] + layers + [bottom], direction="backward").RT_Solve(normalize=1)
    r, t = stack(f, [bottom] + layers[::-1] + [top]).RT_Solve(normalize=1)
    S.prove_close(R, r, "reflectance from below = that of the reversed stack", tol=1e-6)
    S.prove_close(T, t, "transmittance from below = that of the reversed stack", tol=1e-6)


def h_oblique(S, pol, table, n, formula):
    """any angle of incidence; a layer is given by w = q / omega, its permittivity is w^2 + sin(theta)^2"""
    S.algebra()
    f = S.real("f", 0.05, 1.5)
    th = S.real("theta", 0.0, 1.4)
    s2 = one(S, torch.sin(torch.tensor(th)) ** 2)
    c = one(S, torch.cos(torch.tensor(th)))
    lay, ws = [(1.0, torch.tensor(1.0))], []
    for j in range(n):
        w = pick(S, "w%d" % j, [1.5, 3.25]) if table else S.real("w%d" % j, 0.3, 5.0)
        ws.append(w)
        lay.append((S.real("d%d" % j, 0.01, 10.0), torch.tensor(s2 + w * w)))
    lay.append((1.0, torch.tensor(1.0)))
    t = stack(f, lay, ng=1, theta=th, amps=(1, 0, 0, 0) if pol == "p" else (0, 0, 1, 0))
    R, T = t.RT_Solve(normalize=1)
    S.prove_close(R + T, 1.0, "a lossless stack reflects and transmits all energy at any angle", tol=1e-6)
    if formula:
        # one slab: Airy, with the admittance of the polarisation
        w, d = ws[0], lay[1][0]
        y = (s2 + w * w) * c / w if pol == "p" else w / c
        ph = S.elems(torch.exp(1j * torch.tensor(f * w * d * (2 * PI))))[0]
        sn = S.im(ph)
        # R / T = (y - 1/y)^2 sin^2 / 4
        x = y - 1 / y
        S.prove_close(R * 4, T * x * x * sn * sn, "ratio of reflectance and transmittance of a slab at any angle", tol=2e-3)   # the code keeps omega in single precision


def h_order(S, ng):
    """the flux by order adds up to the total"""
    S.algebra()
    f = S.real("f", 0.05, 1.5)
    layers = [outer(S, "", False)] + lossless(S, 1) + [outer(S, "", False)]
    R, T = stack(f, layers, ng=ng).RT_Solve(normalize=1)
    Ro, To = stack(f, layers, ng=ng).RT_Solve(normalize=1, byorder=1)
    Ro, To = S.elems(Ro), S.elems(To)
    S.prove(len(Ro) == len(To) and 0 < len(Ro) <= ng, "one flux per order")
    S.prove_close(sum(Ro, 0.0), R, "reflected orders add up", tol=1e-6)
    S.prove_close(sum(To, 0.0), T, "transmitted orders add up", tol=1e-6)
    for k in range(1, len(Ro)):
        S.prove_close([Ro[k], To[k]], [0.0, 0.0], "a uniform stack scatters into no other order", tol=1e-9)


def h_spectrum(S, n, nf, ng, single):
    """compute_spectrum builds the configured stack and lights it from the top"""
    S.algebra()
    cfg = nidn.load_default_cfg()
    cfg.solver = "TRCWA"
    cfg.Nx = cfg.Ny = 1
    cfg.N_layers, cfg.N_freq = n, nf
    cfg.TRCWA_NG = ng
    th = [S.real("d%d" % j, 0.01, 3.0) for j in range(1 if single else n)]
    cfg.PER_LAYER_THICKNESS = list(th)
    cfg.TRCWA_TOP_LAYER_EPS = S.real("top", 1.0, 9.0)
    cfg.TRCWA_BOTTOM_LAYER_EPS = S.real("bottom", 1.0, 9.0)
    fs = [S.real("f%d" % i, 0.05, 1.5) for i in range(nf)]
    cfg.target_frequencies = list(fs)
    e = torch.zeros((1, 1, n, nf), dtype=torch.complex128)
    ev = {}
    for j in range(n):
        for i in range(nf):
            ev[j, i] = S.cplx("eps_%d_%d" % (j, i), -10.0, 20.0, 0.001, 10.0)
            e[0, 0, j, i] = ev[j, i]
    R, T = nidn.compute_spectrum(e, cfg)
    for i in range(nf):
        layers = [(1.0, torch.tensor(cfg.TRCWA_TOP_LAYER_EPS))] + [(th[0 if single else j], torch.tensor(ev[j, i])) for j in range(n)] + [(1.0, torch.tensor(cfg.TRCWA_BOTTOM_LAYER_EPS))]
        r, t = stack(fs[i] * (1 + 1j / 2e5), layers, ng=2).RT_Solve(normalize=1)
        S.prove_close(R[i], r, "reflectance of the configured stack", tol=1e-4)
        S.prove_close(T[i], t, "transmittance of the configured stack", tol=1e-4)


def instances(tier):
    q = tier == "quick"
    out = []
    what = "any thickness and frequency, refractive indices "
    for n, ng, v, t in [(1, 2, False, False), (1, 6, False, False), (1, 2, True, True), (2, 2, True, True)] + ([] if q else [(2, 6, True, True), (3, 2, False, True)]):
        out.append(dict(name="energy_%d_%d%s" % (n, ng, "_media" if v else ""), fn=h_energy, args=dict(n=n, ng=ng, vary=v, table=t), cost=20,
                        bounds="%d lossless layers, %s%s" % (n, what, "of a table" if t else "in [1, 5]"), opts=dict(time_limit=800.0)))
    for n, l, v, t in [(1, False, False, False), (1, False, True, True), (2, False, True, True), (1, True, True, True)]:
        out.append(dict(name="formula_%d%s%s%s" % (n, "_lossy" if l else "", "_media" if v else "", "_table" if t else ""), fn=h_formula, args=dict(n=n, loss=l, vary=v, table=t), cost=30,
                        bounds="%d %s layers, %s%s" % (n, "absorbing" if l else "lossless", what, "of a table" if t else "in [1, 5]"), opts=dict(time_limit=800.0)))
    for n, nf, ng, si in [(1, 2, 3, False), (2, 1, 3, False), (2, 2, 3, True)] + ([] if q else [(3, 2, 3, False), (4, 1, 3, True), (2, 2, 11, False)]):
        out.append(dict(name="spectrum_%d_%d_%d%s" % (n, nf, ng, "_same" if si else ""), fn=h_spectrum, args=dict(n=n, nf=nf, ng=ng, single=si), cost=20,
                        bounds="%d layers, %d frequencies, any complex permittivities, thicknesses and frequencies" % (n, nf)))
    out.append(dict(name="polarisation", fn=h_pol, cost=20, bounds="any amplitudes and phases, one layer"))
    for n, l in [(1, True), (2, False)]:
        out.append(dict(name="backward_%d" % n, fn=h_backward, args=dict(n=n, loss=l), cost=20, bounds="%d layers" % n))
    for pol, tab, n, fo in [("p", True, 1, True), ("s", True, 1, True), ("s", False, 1, False)] + ([] if q else [("s", False, 1, True)]):
        out.append(dict(name="oblique_%s%s_%d%s" % (pol, "_table" if tab else "", n, "_formula" if fo else ""), fn=h_oblique, args=dict(pol=pol, table=tab, n=n, formula=fo), cost=40,
                        bounds="%d lossless layers, any angle up to 1.4 rad, thickness, frequency" % n, opts=dict(time_limit=800.0)))
    out.append(dict(name="orders", fn=h_order, args=dict(ng=6), cost=20, bounds="one layer, five orders"))
    return out
