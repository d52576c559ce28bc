"""RCWA of genuinely patterned layers, for every polarisation: energy, Poynting's
theorem, boundary conditions, symmetries.  Patterns, lattices, angles and
frequencies come from a table (eigenmodes are computed numerically); the light
is symbolic."""
import os, sys, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import nidn
from nidn.trcwa.trcwa import TRCWA
from nidn.trcwa.utils.fft_funs import get_conv

LAT = {"square": ([1.0, 0.0], [0.0, 1.0]), "rect": ([1.5, 0.0], [0.0, 1.0]), "oblique": ([1.0, 0.0], [0.3, 0.9])}
# value of pixel (x, y) of layer j
PAT = {"block": lambda x, y, j: 6.25 if (x < 3 and 1 <= y < 4) else 1.0 + j,
       "L": lambda x, y, j: 4.0 + j if (x < 2 or y == 0) else 1.5,
       "weak": lambda x, y, j: 2.0 + 0.05 * ((3 * x + 5 * y + x * y + j) % 7)}
LOSS = {"block": lambda x, y, j: 0.5 if x < 3 else 0.0, "L": lambda x, y, j: 0.3 if y == 0 else 0.1, "weak": lambda x, y, j: 0.02 * ((x + 2 * y) % 5)}


def one(S, t):
    return S.elems(t)[0]


def pattern(name, nx, ny, L, loss):
    g = torch.zeros((nx, ny, L), dtype=torch.complex128)
    for j in range(L):
        for x in range(nx):
            for y in range(ny):
                g[x, y, j] = complex(PAT[name](x, y, j), LOSS[name](x, y, j) if loss else 0.0)
    return g


def light(S):
    S.algebra(exact=False)
    return S.real("p", -1.0, 1.0), S.real("pphase", -3.0, 3.0), S.real("s", -1.0, 1.0), S.real("sphase", -3.0, 3.0)


def build(grid, thick, lat, amps, ng=6, f=0.7, theta=0.0, phi=0.0, top=1.0, bottom=1.0, direction="forward"):
    nx, ny, L = grid.shape
    t = TRCWA(ng, list(lat[0]), list(lat[1]), f, theta, phi, verbose=0)
    t.Add_LayerUniform(1.0, torch.tensor(top))
    for j in range(L):
        t.Add_LayerGrid(thick[j], nx, ny)
    t.Add_LayerUniform(1.0, torch.tensor(bottom))
    t.Init_Setup()
    t.MakeExcitationPlanewave(*amps, order=0, direction=direction)
    t.GridLayer_geteps(grid)
    return t


def case(S, c):
    k = dict(c)
    name, lat, nx, ny, L = k.pop("pat"), LAT[k.pop("lat")], k.pop("nx"), k.pop("ny"), k.pop("L")
    thick = [0.4 + 0.15 * j for j in range(L)]
    return name, lat, nx, ny, L, thick, k


def h_energy(S, c):
    name, lat, nx, ny, L, thick, k = case(S, c)
    a = light(S)
    t = build(pattern(name, nx, ny, L, False), thick, lat, a, **k)
    R, T = t.RT_Solve(normalize=1)
    S.prove_close(one(S, R) + one(S, T), a[0] * a[0] + a[2] * a[2], "a lossless pattern reflects and transmits all energy", tol=1e-5)
    Ro, To = t.RT_Solve(normalize=1, byorder=1)
    S.prove_close(sum(S.elems(Ro), 0.0), R, "reflected orders add up", tol=1e-6)
    S.prove_close(sum(S.elems(To), 0.0), T, "transmitted orders add up", tol=1e-6)


def h_absorbed(S, c):
    name, lat, nx, ny, L, thick, k = case(S, c)
    a = light(S)
    g = pattern(name, nx, ny, L, True)
    t = build(g, thick, lat, a, **k)
    R, T = t.RT_Solve(normalize=1)
    lost = 0.0
    for j in range(L):
        M = get_conv(1.0 / nx / ny, torch.imag(g[:, :, j]), t.G)
        lost = lost + S.re(one(S, t.omega * t.Volume_integral(1 + j, M, M, M, normalize=1)))
    S.prove_close(one(S, R) + one(S, T) + lost, a[0] * a[0] + a[2] * a[2], "what is neither reflected nor transmitted is absorbed in the layers", tol=1e-5)


def h_fields(S, c, loss):
    name, lat, nx, ny, L, thick, k = case(S, c)
    a = light(S)
    g = pattern(name, nx, ny, L, loss)
    t = build(g, thick, lat, a, **k)
    th = [1.0] + thick + [1.0]
    D = [lambda e: k.get("top", 1.0) * e] + [lambda e, j=j: torch.mv(get_conv(1.0 / nx / ny, g[:, :, j], t.G), e) for j in range(L)] + [lambda e: k.get("bottom", 1.0) * e]
    for j in range(L + 1):
        up = t.Solve_FieldFourier(j, th[j])[0]
        down = t.Solve_FieldFourier(j + 1, 0.0)[0]
        for i, F in ((0, "E"), (1, "H")):
            for q in (0, 1):
                S.prove_close(S.elems(up[i][q]), S.elems(down[i][q]), "tangential %s is continuous across an interface" % F, tol=1e-6)
        S.prove_close(S.elems(up[1][2]), S.elems(down[1][2]), "Bz is continuous across an interface", tol=1e-6)
        S.prove_close(S.elems(D[j](up[0][2])), S.elems(D[j + 1](down[0][2])), "Dz is continuous across an interface", tol=1e-6)
    # in real space, at two depths of the first pattern
    depths = [0.1, 0.3]
    G, one_z, F = t.Solve_FieldOnGrid(1, depths), t.Solve_FieldOnGrid(1, depths[1]), t.Solve_FieldFourier(1, depths)
    orders = [(int(q[0]), int(q[1])) for q in t.G]
    S.prove(len(G) == len(F) == 2, "one field per depth")
    for i in range(2):
        for q in range(3):
            S.prove(tuple(G[0][i][q].shape) == (nx, ny), "a field value per pixel of the pattern")
            S.prove_close(S.elems(one_z[i][q]), S.elems(G[1][i][q]), "a single depth gives the field at that depth", tol=1e-9)
            for z in range(2):
                for x, y in ((0, 0), (1, 2), (nx - 1, 1)):
                    v = 0.0
                    for (m, o), c in zip(orders, S.elems(F[z][i][q])):
                        ph = 2 * math.pi * (m * x / nx + o * y / ny)
                        v = c * complex(math.cos(ph), math.sin(ph)) + v
                    S.prove_close(S.elems(G[z][i][q])[x * ny + y], v, "field on the grid is the sum over the orders", tol=1e-6)


def same(S, t, u, msg):
    (R, T), (r, s) = t.RT_Solve(normalize=1), u.RT_Solve(normalize=1)
    S.prove_close(one(S, R), one(S, r), "reflectance: " + msg, tol=1e-6)
    S.prove_close(one(S, T), one(S, s), "transmittance: " + msg, tol=1e-6)


def h_symmetry(S, c, loss):
    """shift, split, quarter turn, upside down"""
    name, lat, nx, ny, L, thick, k = case(S, c)
    a = light(S)
    g = pattern(name, nx, ny, L, loss)
    t = build(g, thick, lat, a, **k)
    sh = torch.zeros((nx, ny, L), dtype=torch.complex128)
    for x in range(nx):
        for y in range(ny):
            sh[(x + 2) % nx, (y + 1) % ny] = g[x, y]
    same(S, t, build(sh, thick, lat, a, **k), "shifting the pattern changes nothing")
    two = torch.zeros((nx, ny, 2 * L), dtype=torch.complex128)
    for j in range(L):
        two[:, :, 2 * j] = g[:, :, j]
        two[:, :, 2 * j + 1] = g[:, :, j]
    same(S, t, build(two, [d for x in thick for d in (0.25 * x, 0.75 * x)], lat, a, **k), "a layer in two parts is the layer")
    if not k.get("theta"):
        # a quarter turn of everything: x -> y, y -> -x
        turn = torch.zeros((ny, nx, L), dtype=torch.complex128)
        for x in range(nx):
            for y in range(ny):
                turn[(-y) % ny, x] = g[x, y]
        b = [[-lat[1][1], lat[1][0]], [-lat[0][1], lat[0][0]]]
        lt = ([-v for v in b[0]], b[1])      # the turned b, reversed, and the turned a
        same(S, t, build(turn, thick, lt, (a[2], a[3], a[0] * -1, a[1]), **k), "a quarter turn changes nothing")
    back = torch.zeros((nx, ny, L), dtype=torch.complex128)
    for j in range(L):
        back[:, :, L - 1 - j] = g[:, :, j]
    if k.get("top", 1.0) == k.get("bottom", 1.0):
        same(S, t, build(back, thick[::-1], lat, a, direction="backward", **k), "light from below sees the stack upside down")


def h_forms(S, c, loss):
    """the permittivity as a grid, as a flat vector, per direction"""
    name, lat, nx, ny, L, thick, k = case(S, c)
    a = light(S)
    g = pattern(name, nx, ny, L, loss)
    t = build(g, thick, lat, a, **k)
    flat = [S.elems(g[x, y, j])[0] for j in range(L) for x in range(nx) for y in range(ny)]
    flat = torch.tensor(flat)
    u = build(g, thick, lat, a, **k)
    u.GridLayer_geteps(flat)
    same(S, t, u, "a flat vector of permittivities is the same layer")
    u.GridLayer_geteps([flat, flat, flat])
    same(S, t, u, "equal permittivities for all directions are the same layer")


def h_directions(S, nx, ny, ng, theta):
    """a layer with another permittivity for each direction, lit along x at an angle"""
    p, pp, s, sp = light(S)
    e = {"x": 2.25, "y": 6.0, "z": 3.5}
    g = torch.ones((nx, ny, 1), dtype=torch.complex128)
    t = build(g, [0.4], LAT["square"], (p, pp, s, sp), ng=ng, theta=theta)
    t.GridLayer_geteps([torch.ones(nx * ny, dtype=torch.complex128) * e[d] for d in "xyz"])
    R, T = [one(S, v) for v in t.RT_Solve(normalize=1)]
    for d in "xyz":
        S.prove_close([S.re(z) for z in S.elems(t.Return_eps(1, nx, ny, component=d + d))], [e[d]] * (nx * ny), "permittivity of a direction is reported", tol=1e-9)
    want, c, s2 = 0.0, math.cos(theta), math.sin(theta) ** 2
    wp, ws = math.sqrt(e["x"] * (1 - s2 / e["z"])), math.sqrt(e["y"] - s2)
    for w, y, amp in ((wp, e["x"] * c / wp, p), (ws, ws / c, s)):
        # slab in vacuum: wave number w (times omega), admittance y
        x = 0.25 * (y - 1 / y) ** 2 * math.sin(2 * math.pi * 0.7 * w * 0.4) ** 2
        want = want + amp * amp * (1 / (1 + x))
    S.prove_close(T, want, "each polarisation sees the permittivity of its direction", tol=1e-4)
    S.prove_close(R, p * p + s * s - want, "each polarisation is reflected by the permittivity of its direction", tol=1e-4)


CASES = [dict(pat="block", lat="square", nx=6, ny=6, L=1), dict(pat="L", lat="rect", nx=5, ny=4, L=2, top=1.0, bottom=2.25, f=0.6),
         dict(pat="weak", lat="square", nx=6, ny=5, L=1, theta=0.5, phi=0.3), dict(pat="block", lat="oblique", nx=6, ny=6, L=1, theta=0.2, phi=1.1, ng=8)]
MORE = [dict(pat="L", lat="square", nx=8, ny=8, L=3, ng=11, f=0.9), dict(pat="weak", lat="oblique", nx=7, ny=9, L=2, theta=0.7, phi=2.0, top=2.25, ng=10, f=0.45),
        dict(pat="block", lat="rect", nx=10, ny=8, L=2, theta=1.0, phi=0.0, ng=14, f=0.5), dict(pat="block", lat="square", nx=12, ny=12, L=1, ng=22, f=1.3)]


def instances(tier):
    out = []
    for i, c in enumerate(CASES if tier == "quick" else CASES + MORE):
        b = "%s pattern, %s lattice, %dx%d pixels, %d layers; any amplitudes and phases of both polarisations" % (c["pat"], c["lat"], c["nx"], c["ny"], c["L"])
        for nm, fn, kw in (("energy", h_energy, {}), ("absorbed", h_absorbed, {}), ("fields", h_fields, dict(loss=True)), ("symmetry", h_symmetry, dict(loss=bool(i % 2))), ("forms", h_forms, dict(loss=True))):
            out.append(dict(name="%s_%d" % (nm, i), fn=fn, args=dict(c=c, **kw), cost=10, bounds=b))
    for nx, ny, ng, th in ((4, 4, 1, 0.0), (5, 3, 6, 0.6)):
        out.append(dict(name="directions_%d_%d_%d" % (nx, ny, ng), fn=h_directions, args=dict(nx=nx, ny=ny, ng=ng, theta=th), cost=10, bounds="a uniform anisotropic layer; any amplitudes and phases of both polarisations"))
    return out
