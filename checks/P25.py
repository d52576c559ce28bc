"""RCWA: fields inside a stack.  Boundary conditions at every interface, power
and momentum flux in agreement with reflectance and transmittance,
reconstruction in real space."""
import os, sys, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import nidn
from nidn.trcwa.trcwa import TRCWA

LAT = ([0.1, 0.0], [0.0, 0.1])


def one(S, t):
    return S.elems(t)[0]


def pick(S, name, options):
    return S.exact(S.choose(name, options))


def conj_mul(S, a, b):
    """re(a conj(b))"""
    return S.re(a) * S.re(b) + S.im(a) * S.im(b)


def flux(S, eh):
    """power through the plane, all orders"""
    (ex, ey, ez), (hx, hy, hz) = eh
    p = 0.0
    for a, b, c, d in zip(S.elems(ex), S.elems(hy), S.elems(ey), S.elems(hx)):
        p = p + conj_mul(S, a, b) - conj_mul(S, c, d)
    return p


def build(S, n, loss, tilt, pol, ng=1, direction="forward", table=True):
    """uniform layers between vacua, lit at any angle; index of the layers is
    given by w = q / omega, the permittivity is w^2 + sin(theta)^2"""
    f = S.real("f", 0.05, 1.5)
    th = S.real("theta", 0.0, 1.4) if tilt else 0.0
    s2 = one(S, torch.sin(torch.tensor(th)) ** 2) if tilt else 0.0
    lay = [(1.0, torch.tensor(1.0))]
    for j in range(n):
        if loss:
            w = pick(S, "w%d" % j, [1.5 + 0.25j, 0.25 + 2.5j])
        elif table:
            w = pick(S, "w%d" % j, [1.5, 3.25])
        else:
            w = S.real("w%d" % j, 0.3, 5.0)
        lay.append((S.real("d%d" % j, 0.01, 10.0), torch.tensor(w * w + s2)))
    lay.append((1.0, torch.tensor(1.0)))
    t = TRCWA(ng, LAT[0], LAT[1], f, th, 0.0, verbose=0)
    for d, e in lay:
        t.Add_LayerUniform(d, e)
    t.Init_Setup()
    t.MakeExcitationPlanewave(*{"p": (1, 0, 0, 0), "s": (0, 0, 1, 0), "both": (0.6, 0.0, 0.8, 1.5)}[pol], order=0, direction=direction)
    return t, lay


def h_continuous(S, n, loss, tilt, pol, direction="forward", table=True, ng=1):
    S.algebra()
    t, lay = build(S, n, loss, tilt, pol, ng=ng, direction=direction, table=table)
    for j in range(n + 1):
        up = t.Solve_FieldFourier(j, lay[j][0])[0]
        down = t.Solve_FieldFourier(j + 1, 0.0)[0]
        for k, c in ((0, "x"), (1, "y")):
            for i, F in ((0, "E"), (1, "H")):
                a, b = S.elems(up[i][k]), S.elems(down[i][k])
                S.prove(len(a) == len(b) == t.nG, "one value per order")
                for x, y in zip(a, b):
                    S.prove_close([S.re(x), S.im(x)], [S.re(y), S.im(y)], "%s%s is continuous across an interface" % (F, c), tol=1e-6)
        if tilt:
            for x, y in zip(S.elems(up[1][2]), S.elems(down[1][2])):
                S.prove_close([S.re(x), S.im(x)], [S.re(y), S.im(y)], "Bz is continuous across an interface", tol=1e-6)
            for x, y in zip(S.elems(up[0][2] * lay[j][1]), S.elems(down[0][2] * lay[j + 1][1])):
                S.prove_close([S.re(x), S.im(x)], [S.re(y), S.im(y)], "Dz is continuous across an interface", tol=1e-6)


def h_power(S, n, loss, tilt, pol, table=True):
    """flux of the fields"""
    S.algebra()
    t, lay = build(S, n, loss, tilt, pol, table=table)
    R, T = t.RT_Solve(normalize=0)
    inc = one(S, torch.cos(t.theta))
    z = S.real("z", 0.0, 1.0)
    S.prove_close(flux(S, t.Solve_FieldFourier(0, z)[0]), inc - one(S, R), "power entering is what is not reflected", tol=1e-6)
    S.prove_close(flux(S, t.Solve_FieldFourier(n + 1, z)[0]), T, "power leaving is the transmitted one", tol=1e-6)
    if not loss:
        for j in range(1, n + 1):
            S.prove_close(flux(S, t.Solve_FieldFourier(j, z)[0]), T, "power is the same at every depth of a lossless stack", tol=1e-6)


def h_transverse(S, n, pol):
    S.algebra()
    t, lay = build(S, n, False, True, pol)
    inc = one(S, torch.cos(t.theta))
    out = t.Solve_FieldFourier(n + 1, S.real("z", 0.0, 1.0))[0]
    om = one(S, t.omega)
    for i, F in ((0, "E"), (1, "H")):   # behind the stack there is one wave, with k = omega (sin, 0, cos)
        d = S.elems(out[i][0])[0] * one(S, t.kx) / om + S.elems(out[i][1])[0] * one(S, t.ky) / om + S.elems(out[i][2])[0] * inc
        S.prove_close([S.re(d), S.im(d)], [0.0, 0.0], F + " of the transmitted wave is perpendicular to its direction", tol=1e-5)


def h_amplitudes(S, n, loss):
    """amplitudes of the waves in a layer, at any depth"""
    S.algebra()
    t, lay = build(S, n, loss, False, "p")
    z = S.real("z", 0.0, 0.01)
    for j in range(n + 2):
        a0, b0 = [S.elems(x) for x in t.GetAmplitudes_noTranslate(j)]
        a, b = [S.elems(x) for x in t.GetAmplitudes(j, z)]
        q = t.q_list[j]
        pa = S.elems(torch.exp(1j * q * z))
        pb = S.elems(torch.exp(1j * q * (lay[j][0] - z)))
        for k in range(len(a)):
            x, y = a0[k] * pa[k], b0[k] * pb[k]
            S.prove_close([S.re(a[k]), S.im(a[k])], [S.re(x), S.im(x)], "downward wave at a depth", tol=1e-6)
            S.prove_close([S.re(b[k]), S.im(b[k])], [S.re(y), S.im(y)], "upward wave at a depth", tol=1e-6)
    a0, b0 = [S.elems(x) for x in t.GetAmplitudes_noTranslate(0)]
    S.prove_close([S.re(a0[0]), S.re(a0[1]), S.im(a0[0]), S.im(a0[1])], [0.0, 1.0, 0.0, 0.0], "the downward wave in the first medium is the incident one", tol=1e-9)
    aN, bN = [S.elems(x) for x in t.GetAmplitudes_noTranslate(n + 1)]
    for x in bN:
        S.prove_close([S.re(x), S.im(x)], [0.0, 0.0], "nothing comes from below", tol=1e-9)


def h_momentum(S, n, loss, pol):
    """radiation pressure: momentum flux above and below"""
    S.algebra()
    t, lay = build(S, n, loss, False, pol)
    R, T = t.RT_Solve(normalize=0)
    top = [one(S, x) for x in t.Solve_ZStressTensorIntegral(0)]
    bottom = [one(S, x) for x in t.Solve_ZStressTensorIntegral(n + 1)]
    S.prove_close(top, [0.0, 0.0, -1.0 - one(S, R)], "momentum flux above: incident and reflected", tol=1e-6)
    S.prove_close(bottom, [0.0, 0.0, -one(S, T)], "momentum flux below: transmitted", tol=1e-6)


def h_grid(S, nx, ny):
    """real-space fields are the sum over the orders"""
    S.algebra()
    t, lay = build(S, 1, False, False, "both", ng=6)
    z = S.real("z", 0.0, 1.0)
    F = t.Solve_FieldFourier(1, z)[0]
    G = t.Solve_FieldOnGrid(1, [z], Nxy=[nx, ny])
    S.prove(len(G) == 1, "one field per depth")
    orders = [(int(g[0]), int(g[1])) for g in t.G]
    for i in range(2):
        for k in range(3):
            f = S.elems(F[i][k])
            S.prove(tuple(G[0][i][k].shape) == (nx, ny), "a field value per grid point")
            for x in range(nx):
                for y in range(ny):
                    re = im = 0.0
                    for (m, o), c in zip(orders, f):
                        p = 2 * math.pi * (m * x / nx + o * y / ny)
                        re = re + S.re(c) * math.cos(p) - S.im(c) * math.sin(p)
                        im = im + S.re(c) * math.sin(p) + S.im(c) * math.cos(p)
                    v = one(S, G[0][i][k][x, y])
                    S.prove_close([S.re(v), S.im(v)], [re, im], "field on the grid is the sum over the orders", tol=1e-6)


def h_pattern(S, nx, ny, L, comp, lat):
    """permittivity reconstructed from the (three) orders of a patterned layer"""
    t = TRCWA(4, lat[0], lat[1], 0.3, 0.0, 0.0, verbose=0)
    t.Add_LayerUniform(1.0, torch.tensor(1.0))
    for j in range(L):
        t.Add_LayerGrid(0.5, nx, ny)
    t.Add_LayerUniform(1.0, torch.tensor(2.0))
    t.Init_Setup()
    v, grid = {}, torch.zeros((nx, ny, L), dtype=torch.complex128)
    for j in range(L):
        for x in range(nx):
            for y in range(ny):
                v[x, y, j] = S.cplx("e_%d_%d_%d" % (x, y, j), 1.0, 12.0, 0.0, 3.0)
                grid[x, y, j] = v[x, y, j]
    import nidn.trcwa.trcwa as M
    keep = M.SolveLayerEigensystem
    # modes and the inverted permittivity are not needed here
    M.SolveLayerEigensystem = lambda omega, kx, ky, kp, ep2: (None, None)
    inv, torch.inverse = torch.inverse, lambda m: m
    try:
        t.GridLayer_geteps(grid)
    finally:
        M.SolveLayerEigensystem, torch.inverse = keep, inv
    orders = [(int(g[0]), int(g[1])) for g in t.G]
    for j in range(L):
        e = t.Return_eps(1 + j, nx, ny, component=comp)
        S.prove(tuple(e.shape) == (nx, ny), "a permittivity per pixel")
        for x in range(nx):
            for y in range(ny):
                re = im = 0.0
                if comp in ("xx", "yy"):
                    for a in range(nx):
                        for b in range(ny):
                            k = kk = 0.0
                            for m, o in orders:
                                p = 2 * math.pi * (m * (x - a) / nx + o * (y - b) / ny)
                                k, kk = k + math.cos(p) / (nx * ny), kk + math.sin(p) / (nx * ny)
                            re = re + S.re(v[a, b, j]) * k - S.im(v[a, b, j]) * kk
                            im = im + S.im(v[a, b, j]) * k + S.re(v[a, b, j]) * kk
                w = one(S, e[x, y])
                S.prove_close([S.re(w), S.im(w)], [re, im], "permittivity of a pixel is the sum over the orders", tol=1e-9)
    e = S.elems(t.Return_eps(L + 1, nx, ny))
    S.prove_close(e, [2.0] * (nx * ny), "a uniform layer has its permittivity everywhere", tol=1e-9)


def instances(tier):
    q = tier == "quick"
    out = []
    b = "any thickness and frequency, wave numbers of a table"
    T = dict(time_limit=800.0)
    for n, l, ti, pol, d, tab, ng in [(1, False, False, "both", "forward", False, 1), (1, True, False, "p", "backward", True, 1), (2, False, False, "s", "forward", True, 1),
                                      (1, False, True, "p", "forward", True, 1), (1, False, True, "s", "forward", True, 1), (1, False, False, "s", "forward", True, 6)]:
        out.append(dict(name="continuous_%d%s%s_%s_%s_%d" % (n, "_lossy" if l else "", "_tilt" if ti else "", pol, d, ng), fn=h_continuous,
                        args=dict(n=n, loss=l, tilt=ti, pol=pol, direction=d, table=tab, ng=ng), cost=20, bounds="%d layers, %s" % (n, b), opts=T))
    for n, l, ti, pol, tab in [(1, False, False, "p", False), (1, True, False, "s", True), (1, False, True, "s", True)] + ([] if q else [(2, False, False, "s", True), (1, False, True, "p", True)]):
        out.append(dict(name="power_%d%s%s_%s" % (n, "_lossy" if l else "", "_tilt" if ti else "", pol), fn=h_power, args=dict(n=n, loss=l, tilt=ti, pol=pol, table=tab), cost=20, bounds="%d layers, %s" % (n, b), opts=T))
    for pol in ("p", "s"):
        out.append(dict(name="transverse_" + pol, fn=h_transverse, args=dict(n=1, pol=pol), cost=20, bounds="1 layer, any angle, " + b, opts=T))
    for n, l in [(1, False), (2, False), (1, True)]:
        out.append(dict(name="amplitudes_%d%s" % (n, "_lossy" if l else ""), fn=h_amplitudes, args=dict(n=n, loss=l), cost=10, bounds="%d layers, %s" % (n, b), opts=T))
    for n, l, pol in [(1, False, "p"), (1, True, "s")]:
        out.append(dict(name="momentum_%d%s" % (n, "_lossy" if l else ""), fn=h_momentum, args=dict(n=n, loss=l, pol=pol), cost=10, bounds="%d layers, %s" % (n, b), opts=T))
    out.append(dict(name="grid_3_2", fn=h_grid, args=dict(nx=3, ny=3), cost=10, bounds="one layer, five orders"))
    X, Y = ([2.0, 0.0], [0.0, 1.0]), ([1.0, 0.0], [0.0, 2.0])
    for nx, ny, L, c, lat in [(3, 3, 1, "xx", X), (2, 3, 2, "yy", Y), (3, 3, 1, "xy", X), (4, 3, 1, "yx", X)]:
        out.append(dict(name="pattern_%d_%d_%d_%s" % (nx, ny, L, c), fn=h_pattern, args=dict(nx=nx, ny=ny, L=L, comp=c, lat=lat), cost=10, bounds="%dx%d pixels, %d layers, three orders, any permittivities" % (nx, ny, L)))
    return out
