"""RCWA of patterned layers: reciprocal lattice, diffraction orders,
convolution matrices; limits in which a patterned layer is a uniform one."""
import os, sys, math, cmath
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import nidn
from nidn.trcwa.trcwa import TRCWA
from nidn.trcwa.utils.kbloch import Lattice_Reciprocate, Lattice_getG, Lattice_SetKs
from nidn.trcwa.utils.fft_funs import get_conv, get_fft, Epsilon_fft

PI = math.pi


def h_dual(S):
    """any two lattice vectors that span the plane"""
    L1, L2 = [S.real("a%d" % i, -3.0, 3.0) for i in range(2)], [S.real("b%d" % i, -3.0, 3.0) for i in range(2)]
    det = L1[0] * L2[1] - L1[1] * L2[0]
    S.assume((det > 0.01) | (det < -0.01))
    k1, k2 = [S.elems(k) for k in Lattice_Reciprocate(list(L1), list(L2))]
    for k, name, want in ((k1, "first", (1.0, 0.0)), (k2, "second", (0.0, 1.0))):
        S.prove_close([k[0] * L1[0] + k[1] * L1[1], k[0] * L2[0] + k[1] * L2[1]], list(want), "%s reciprocal vector is dual to the lattice" % name, tol=1e-9)
    G = torch.tensor([[0, 0], [1, 0], [-2, 1], [3, -3]])
    kx0, ky0 = S.real("kx0", -9.0, 9.0), S.real("ky0", -9.0, 9.0)
    lk = [[S.real("k%d%d" % (i, j), -9.0, 9.0) for j in range(2)] for i in range(2)]
    kx, ky = Lattice_SetKs(G, torch.tensor(kx0), torch.tensor(ky0), torch.tensor(lk[0]), torch.tensor(lk[1]))
    for i, (m, n) in enumerate(((0, 0), (1, 0), (-2, 1), (3, -3))):
        S.prove_close([kx[i], ky[i]], [kx0 + 2 * PI * (m * lk[0][0] + n * lk[1][0]), ky0 + 2 * PI * (m * lk[0][1] + n * lk[1][1])],
                      "wave vector of an order", tol=1e-4)


def h_orders(S, lattice, ng):
    """the lattice in any scale"""
    s = S.real("scale", 1e-12, 1e12)
    (a, b), (c, d) = lattice
    L1, L2 = [a * s, b * s], [c * s, d * s]
    Lk1, Lk2 = Lattice_Reciprocate(L1, L2)
    G, n = Lattice_getG(ng, Lk1, Lk2)
    G = [(int(g[0]), int(g[1])) for g in G]
    S.prove(int(n) == len(G), "the number of orders is reported")
    S.prove(1 <= len(G) <= ng, "at least one order and at most as many as requested")
    S.prove(G[0] == (0, 0), "the zeroth order comes first")
    S.prove(len(set(G)) == len(G), "no order twice")
    S.prove(all((-m, -k) in G for m, k in G), "with every order its opposite")
    det = a * d - b * c
    k1, k2 = (d / det, -c / det), (-b / det, a / det)
    norm = lambda g: (g[0] * k1[0] + g[1] * k2[0]) ** 2 + (g[0] * k1[1] + g[1] * k2[1]) ** 2
    nn = [norm(g) for g in G]
    S.prove(all(nn[i] <= nn[i + 1] + 1e-9 for i in range(len(nn) - 1)), "orders sorted by length")
    rest = [norm((m, k)) for m in range(-9, 10) for k in range(-9, 10) if (m, k) not in G]
    S.prove(min(rest) > max(nn) + 1e-9, "every other order is longer: no shell is split")
    # as many complete shells as fit below the requested number
    every = sorted(round(norm((m, k)), 9) for m in range(-9, 10) for k in range(-9, 10))
    S.prove(len([x for x in every if x < every[ng - 1] - 1e-8]) in (len(G), 0), "no complete shell below the limit is left out")


def h_parallelogram(S, lattice, ng):
    """the other truncation scheme: all orders up to an index in both directions"""
    s = S.real("scale", 1e-6, 1e6)
    (a, b), (c, d) = lattice
    Lk1, Lk2 = Lattice_Reciprocate([a * s, b * s], [c * s, d * s])
    G, n = Lattice_getG(ng, Lk1, Lk2, method=1)
    G = [(int(g[0]), int(g[1])) for g in G]
    m = (int(math.isqrt(ng)) - 1) // 2
    S.prove(int(n) == len(G), "the number of orders is reported")
    S.prove(sorted(G) == sorted((i, j) for i in range(-m, m + 1) for j in range(-m, m + 1)), "every order of the parallelogram once")
    S.prove(G[0] == (0, 0), "the zeroth order comes first")
    det = a * d - b * c
    k1, k2 = (d / det, -c / det), (-b / det, a / det)
    nn = [(g[0] * k1[0] + g[1] * k2[0]) ** 2 + (g[0] * k1[1] + g[1] * k2[1]) ** 2 for g in G]
    S.prove(all(nn[i] <= nn[i + 1] + 1e-9 for i in range(len(nn) - 1)), "orders sorted by length")


def signal(S, nx, ny, real=False):
    t = torch.zeros((nx, ny), dtype=torch.complex128)
    v = {}
    for x in range(nx):
        for y in range(ny):
            v[x, y] = S.real("e_%d_%d" % (x, y), 1.0, 20.0) if real else S.cplx("e_%d_%d" % (x, y), -5.0, 20.0, 0.0, 5.0)
            t[x, y] = v[x, y]
    return t, v


def component(S, v, nx, ny, m, k):
    """(re, im) of the Fourier component (m, k)"""
    re, im = 0.0, 0.0
    for (x, y), z in v.items():
        ph = -2 * PI * ((m * x) % nx / nx + (k * y) % ny / ny)
        c, s = math.cos(ph), math.sin(ph)
        re = re + (S.re(z) * c - S.im(z) * s) / (nx * ny)
        im = im + (S.im(z) * c + S.re(z) * s) / (nx * ny)
    return re, im


ORDERS = [(0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)]


def h_conv(S, nx, ny, ng):
    t, v = signal(S, nx, ny)
    G = ORDERS[:ng]
    g = torch.tensor(G)
    C = get_conv(1.0 / nx / ny, t, g)
    F = get_fft(1.0 / nx / ny, t, g)
    S.prove(tuple(C.shape) == (ng, ng) and tuple(F.shape) == (ng,), "one row and column per order")
    for i in range(ng):
        re, im = component(S, v, nx, ny, *G[i])
        S.prove_close([S.re(F[i]), S.im(F[i])], [re, im], "Fourier component of an order", tol=1e-9)
        for j in range(ng):
            re, im = component(S, v, nx, ny, G[i][0] - G[j][0], G[i][1] - G[j][1])
            S.prove_close([S.re(C[i, j]), S.im(C[i, j])], [re, im], "convolution matrix holds the component of the difference of orders", tol=1e-9)


def h_eps(S, nx, ny, G):
    S.algebra()
    t, v = signal(S, nx, ny, real=True)
    ng = len(G)
    inv, eps = Epsilon_fft(1.0 / nx / ny, t, torch.tensor(G))
    S.prove(tuple(eps.shape) == (2 * ng, 2 * ng) and tuple(inv.shape) == (ng, ng), "shape of the permittivity matrices")
    want = {}
    for i in range(ng):
        for j in range(ng):
            want[i, j] = component(S, v, nx, ny, G[i][0] - G[j][0], G[i][1] - G[j][1])
    for i in range(2 * ng):
        for j in range(2 * ng):
            re, im = want[i % ng, j % ng] if i // ng == j // ng else (0.0, 0.0)
            S.prove_close([S.re(eps[i, j]), S.im(eps[i, j])], [re, im], "in-plane permittivity is the convolution matrix in both blocks", tol=1e-12)
    # inverse
    for i in range(ng):
        for j in range(ng):
            a, b = 0.0, 0.0
            for k in range(ng):
                x, y = want[i, k]
                a = a + x * S.re(inv[k, j]) - y * S.im(inv[k, j])
                b = b + x * S.im(inv[k, j]) + y * S.re(inv[k, j])
            S.prove_close([a, b], [1.0 if i == j else 0.0, 0.0], "out-of-plane permittivity is inverted", tol=1e-6)


def config(nx, ny, n, nf, ng):
    cfg = nidn.load_default_cfg()
    cfg.solver = "TRCWA"
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = nx, ny, n, nf
    cfg.TRCWA_NG = ng
    return cfg


def h_limit(S, nx, ny, n, ng, const):
    """a grid of equal pixels is a uniform layer; so is any grid for a single order"""
    S.algebra()
    cfg = config(nx, ny, n, 1, ng)
    cfg.target_frequencies = [S.real("f", 0.05, 1.5)]
    cfg.PER_LAYER_THICKNESS = [S.real("d%d" % j, 0.01, 3.0) for j in range(n)]
    grid = torch.zeros((nx, ny, n, 1), dtype=torch.complex128)
    one = torch.zeros((1, 1, n, 1), dtype=torch.complex128)
    for j in range(n):
        mean = 0.0
        if const:
            mean = S.cplx("e%d" % j, 1.0, 12.0, 0.5, 3.0)
        else:
            v = [[S.cplx("e%d_%d_%d" % (j, x, y), 1.0, 12.0, 0.5, 3.0) for y in range(ny)] for x in range(nx)]
            for r in v:
                for z in r:
                    mean = z * (1.0 / nx / ny) + mean
        for x in range(nx):
            for y in range(ny):
                grid[x, y, j, 0] = mean if const else v[x][y]
        one[0, 0, j, 0] = mean
    R, T = nidn.compute_spectrum(grid, cfg)
    ref = config(1, 1, n, 1, ng)
    ref.target_frequencies, ref.PER_LAYER_THICKNESS = cfg.target_frequencies, cfg.PER_LAYER_THICKNESS
    r, t = nidn.compute_spectrum(one, ref)
    S.prove_close(S.elems(R[0]), S.elems(r[0]), "reflectance of the uniform stack", tol=1e-6)
    S.prove_close(S.elems(T[0]), S.elems(t[0]), "transmittance of the uniform stack", tol=1e-6)


def h_layers(S, nx, ny, L):
    """every layer gets the mean of its own pixels (single order)"""
    import nidn.trcwa.trcwa as M
    t = TRCWA(1, [1.0, 0.0], [0.0, 1.0], 0.3, 0.0, 0.0, verbose=0)
    t.Add_LayerUniform(1.0, torch.tensor(1.0))
    for j in range(L):
        t.Add_LayerGrid(0.5, nx, ny)
    t.Add_LayerUniform(1.0, torch.tensor(2.0))
    t.Init_Setup()
    grid = torch.zeros((nx, ny, L), dtype=torch.complex128)
    re, im = [0.0] * L, [0.0] * L
    for j in range(L):
        for x in range(nx):
            for y in range(ny):
                z = S.cplx("e_%d_%d_%d" % (x, y, j), 1.0, 12.0, 0.5, 3.0)
                grid[x, y, j] = z
                re[j], im[j] = re[j] + S.re(z) / (nx * ny), im[j] + S.im(z) / (nx * ny)
    keep = M.SolveLayerEigensystem
    M.SolveLayerEigensystem = lambda omega, kx, ky, kp, ep2: (None, None)      # modes are not needed here
    try:
        t.GridLayer_geteps(grid)
    finally:
        M.SolveLayerEigensystem = keep
    for j in range(L):
        e = S.elems(t.Return_eps(1 + j, 1, 1))[0]
        S.prove_close([S.re(e), S.im(e)], [re[j], im[j]], "a layer has the mean permittivity of its own pixels", tol=1e-9)


def h_bloch(S, lattice, ng, tilt):
    """lateral wave numbers of the orders: those of the light plus the reciprocal lattice of the (scaled) period"""
    import math
    p, f = S.real("p", 0.5, 2.0), 0.2
    th, ph = (0.4, 0.3) if tilt else (0.0, 0.0)
    t = TRCWA(ng, lattice[0], lattice[1], f, th, ph, verbose=0)
    t.Add_LayerUniform(1.0, torch.tensor(2.25))
    t.Add_LayerUniform(0.5, torch.tensor(3.0))
    t.Add_LayerUniform(1.0, torch.tensor(1.0))
    t.Init_Setup(Pscale=p)
    (a, b), (c, d) = lattice
    det = a * d - b * c
    k1, k2 = (d / det, -c / det), (-b / det, a / det)
    G = [(int(g[0]), int(g[1])) for g in t.G]
    S.prove(len(G) == int(t.nG) and G[0] == (0, 0), "orders are listed, zeroth first")
    k0 = 2 * math.pi * f * 1.5 * math.sin(th)
    for i, v, base in ((0, t.kx, k0 * math.cos(ph)), (1, t.ky, k0 * math.sin(ph))):
        v = S.elems(v)
        S.prove(len(v) == len(G), "one wave number per order")
        for g, k in zip(G, v):
            S.prove_close([S.re(k)], [base + 2 * math.pi * (g[0] * k1[i] + g[1] * k2[i]) / p], "lateral wave number of an order", tol=1e-5)
            S.prove_close([S.im(k)], [0.0], "lateral wave numbers are real", tol=1e-9)
    if S.choose("dir", ["forward", "backward"]) == "forward":
        t.MakeExcitationPlanewave(1.0, 0.0, 0.5, 0.0)
        on, off = S.elems(t.a0), S.elems(t.bN)
    else:
        t.MakeExcitationPlanewave(1.0, 0.0, 0.5, 0.0, direction="backward")
        on, off = S.elems(t.bN), S.elems(t.a0)
    n = len(G)
    S.prove(S.abs(on[0]) > 0.1, "light comes in the zeroth order")
    S.prove(S.abs(on[n]) > 0.1, "light comes in the zeroth order")
    for i, v in enumerate(on):
        if i % n:
            S.prove_close([S.abs(v)], [0.0], "and in no other")
    for v in off:
        S.prove_close([S.abs(v)], [0.0], "and not from the other side")


SQ = [[1.0, 0.0], [0.0, 1.0]]
LATS = {"square": SQ, "rect": [[2.0, 0.0], [0.0, 1.0]], "oblique": [[1.0, 0.0], [0.25, 1.0]], "turned": [[1.0, 1.0], [-1.0, 1.0]], "left": [[0.0, 1.0], [1.0, 0.0]]}


def instances(tier):
    q = tier == "quick"
    out = [dict(name="dual", fn=h_dual, cost=5, bounds="every lattice with |det| > 0.01, entries in [-3, 3]")]
    for name, lat in LATS.items():
        for ng in ((1, 2, 6, 11) if name == "square" else (7,)) if q else (1, 2, 3, 5, 6, 9, 10, 11, 14, 21):
            out.append(dict(name="orders_%s_%d" % (name, ng), fn=h_orders, args=dict(lattice=lat, ng=ng), cost=20, bounds="%s lattice in any scale, %d orders requested" % (name, ng)))
    for name, ng in (("square", 10), ("oblique", 9), ("rect", 3)) if q else (("square", 10), ("oblique", 9), ("rect", 3), ("turned", 26), ("left", 16)):
        out.append(dict(name="parallelogram_%s_%d" % (name, ng), fn=h_parallelogram, args=dict(lattice=LATS[name], ng=ng), cost=10, bounds="%s lattice in any scale, %d orders requested" % (name, ng)))
    for nx, ny, ng in ((2, 3, 3), (4, 2, 4), (3, 3, 6), (1, 2, 1)) if q else ((2, 3, 3), (4, 2, 4), (3, 3, 6), (5, 4, 6), (1, 2, 1), (6, 6, 6)):
        out.append(dict(name="conv_%d_%d_%d" % (nx, ny, ng), fn=h_conv, args=dict(nx=nx, ny=ny, ng=ng), cost=10, bounds="%dx%d pixels, %d orders, any complex values" % (nx, ny, ng)))
    for nx, ny, G in ((3, 1, ((0, 0), (1, 0))), (1, 4, ((0, 0), (0, 1))), (3, 1, ((0, 0), (1, 0), (-1, 0)))):
        out.append(dict(name="eps_%d_%d_%d" % (nx, ny, len(G)), fn=h_eps, args=dict(nx=nx, ny=ny, G=[list(g) for g in G]), cost=20, bounds="%dx%d pixels, %d orders, any real permittivities" % (nx, ny, len(G))))
    for nx, ny, n, ng, c in ((2, 2, 1, 2, False), (3, 3, 1, 2, False), (3, 2, 3, 1, False), (1, 2, 2, 1, False), (1, 3, 3, 1, False), (4, 4, 1, 6, True)) if q else ((2, 2, 1, 2, False), (3, 3, 1, 2, False), (3, 2, 3, 1, False), (4, 4, 1, 6, True), (4, 3, 2, 5, False), (4, 4, 2, 6, True), (8, 8, 1, 11, True)):
        out.append(dict(name="limit_%d_%d_%d_%d%s" % (nx, ny, n, ng, "_const" if c else ""), fn=h_limit, args=dict(nx=nx, ny=ny, n=n, ng=ng, const=c), cost=30,
                        bounds="%dx%d pixels, %d layers, any permittivities, thicknesses and frequency" % (nx, ny, n)))
    for name, ng, ti in (("square", 6, False), ("oblique", 5, True), ("rect", 4, True)):
        out.append(dict(name="bloch_%s_%d" % (name, ng), fn=h_bloch, args=dict(lattice=LATS[name], ng=ng, tilt=ti), cost=10, bounds="%s lattice, period scaled by 0.5..2, %d orders" % (name, ng)))
    for nx, ny, L in ((2, 1, 6), (1, 2, 3), (2, 3, 2)):
        out.append(dict(name="layers_%d_%d_%d" % (nx, ny, L), fn=h_layers, args=dict(nx=nx, ny=ny, L=L), cost=10, bounds="%dx%d pixels, %d layers, any permittivities, one order" % (nx, ny, L)))
    return out
