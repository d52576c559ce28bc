"""Layer builder: which pixels of a layer carry which material."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import matlib as M
import nidn
from nidn.materials.layer_builder import LayerBuilder

NM = M.NAMES[:3]


def setup(S, Nx, Ny, F):
    tabs = {n: (([1.0], [1.0], [0.0]) if n not in NM else M.table(S, n, 1)) for n in M.NAMES}
    M.use_tables(S, tabs)
    cfg = nidn.load_default_cfg()
    cfg.Nx, cfg.Ny, cfg.N_freq = Nx, Ny, F
    cfg.target_frequencies = [S.real("f%d" % i, 0.05, 5.0) for i in range(F)]
    b = LayerBuilder(cfg)
    return b


def tick(i, n):
    return i / (n - 1) if n > 1 else 0.0


def pixels(S, eps, Nx, Ny, F):
    S.prove_eq(S.shape(eps) == (Nx, Ny, F), True, "layer shape (Nx, Ny, N_freq)")
    return [[S.elems(eps[i, j]) for j in range(Ny)] for i in range(Nx)]


def eps_of(S, b, name):
    return S.elems(b.material_collection[name])


def close(S, a, b):
    t = 1e-6 if S.symbolic else 4e-6
    parts = []
    for x, y in zip(a, b):
        for p, q in ((S.re(x), S.re(y)), (S.im(x), S.im(y))):
            parts += [p - q <= t, q - p <= t]
    return S.and_(*parts)


def h_uniform(S, Nx, Ny, F):
    b = setup(S, Nx, Ny, F)
    m = S.choose("m", NM)
    px = pixels(S, b.build_uniform_layer(m), Nx, Ny, F)
    want = eps_of(S, b, m)
    for i in range(Nx):
        for j in range(Ny):
            S.prove_close(px[i][j], want, "uniform layer carries its material everywhere", tol=1e-6)
    S.observe("px", px)


def check_pattern(S, px, inside, outside, ein, eout, what):
    """inside/outside: conditions (not complementary: pixels exactly on the
    border, within rounding, may go either way)"""
    for i in range(len(px)):
        for j in range(len(px[0])):
            S.prove(S.implies(inside(i, j), close(S, px[i][j], ein)), what + ": pixels inside carry the inclusion material")
            S.prove(S.implies(outside(i, j), close(S, px[i][j], eout)), what + ": pixels outside carry the surrounding material")
            S.prove(S.or_(close(S, px[i][j], ein), close(S, px[i][j], eout)), what + ": every pixel carries one of the two materials")


R = 1e-6


def h_square(S, Nx, Ny, F, default=False):
    b = setup(S, Nx, Ny, F)
    g, q = NM[0], NM[1]
    if default:
        a = 0.33
        px = pixels(S, b.build_squared_layer(g, q), Nx, Ny, F)
    else:
        a = S.real("a", 0.0, 0.5)
        px = pixels(S, b.build_squared_layer(g, q, a), Nx, Ny, F)

    def inside(i, j):
        x, y = tick(i, Nx), tick(j, Ny)
        return S.and_(x > a + R, x < 1 - a - R, y > a + R, y < 1 - a - R)

    def outside(i, j):
        x, y = tick(i, Nx), tick(j, Ny)
        return S.or_(x < a - R, x > 1 - a + R, y < a - R, y > 1 - a + R)
    check_pattern(S, px, inside, outside, eps_of(S, b, q), eps_of(S, b, g), "square")


def h_circle(S, Nx, Ny, F, default=False):
    b = setup(S, Nx, Ny, F)
    g, q = NM[2], NM[0]
    if default:
        r, cx, cy = 0.33, 0.5, 0.5
        px = pixels(S, b.build_circle_layer(g, q), Nx, Ny, F)
    else:
        r = S.real("r", 0.0, 1.0)
        cx = S.real("cx", 0.0, 1.0)
        cy = S.real("cy", 0.0, 1.0)
        px = pixels(S, b.build_circle_layer(g, q, r, cx, cy), Nx, Ny, F)

    def d2(i, j):
        x, y = tick(i, Nx), tick(j, Ny)
        return (x - cx) * (x - cx) + (y - cy) * (y - cy)
    check_pattern(S, px, lambda i, j: d2(i, j) < r * r - R, lambda i, j: d2(i, j) > r * r + R,
                  eps_of(S, b, q), eps_of(S, b, g), "circle")


def h_unknown(S):
    b = setup(S, 2, 2, 1)
    f = S.choose("f", [lambda: b.build_uniform_layer("nope"), lambda: b.build_squared_layer(NM[0], "nope"),
                       lambda: b.build_squared_layer("nope", NM[0]), lambda: b.build_circle_layer("nope", NM[0]),
                       lambda: b.build_circle_layer(NM[0], "nope")])
    S.prove(S.raises(f, KeyError) is not None, "an unknown material is refused")


def instances(tier):
    out = [dict(name="unknown", fn=h_unknown, bounds="5 calls")]
    sizes = [(1, 1, 1), (2, 3, 2), (4, 2, 1), (3, 5, 1)] if tier == "quick" else \
        [(1, 1, 1), (2, 3, 2), (4, 2, 1), (3, 5, 1), (6, 6, 2), (1, 7, 3), (8, 5, 1), (9, 9, 1)]
    for Nx, Ny, F in sizes:
        a = dict(Nx=Nx, Ny=Ny, F=F)
        b = "layer %dx%d, %d frequencies; symbolic permittivities" % (Nx, Ny, F)
        t = "_%d_%d_%d" % (Nx, Ny, F)
        out.append(dict(name="uniform" + t, fn=h_uniform, args=a, bounds=b))
        out.append(dict(name="square" + t, fn=h_square, args=a, bounds=b + ", hole offset a in [0,0.5]", cost=Nx * Ny))
        out.append(dict(name="circle" + t, fn=h_circle, args=a, bounds=b + ", radius, centre in [0,1]", cost=2 * Nx * Ny))
    a = dict(Nx=15, Ny=12, F=1, default=True)
    out.append(dict(name="square_default", fn=h_square, args=a, bounds="15x12, default offset"))
    out.append(dict(name="circle_default", fn=h_circle, args=a, bounds="15x12, default radius and centre"))
    for n, (Nx, Ny) in enumerate(((33, 3), (3, 35), (130, 1))):
        a = dict(Nx=Nx, Ny=Ny, F=1, default=True)
        out.append(dict(name="square_large%d" % n, fn=h_square, args=a, bounds="%dx%d, default offset" % (Nx, Ny)))
        out.append(dict(name="circle_large%d" % n, fn=h_circle, args=a, bounds="%dx%d, default radius and centre" % (Nx, Ny)))
        out.append(dict(name="uniform_large%d" % n, fn=h_uniform, args=dict(Nx=Nx, Ny=Ny, F=1), bounds="%dx%d" % (Nx, Ny)))
    out.append(dict(name="uniform_freqs", fn=h_uniform, args=dict(Nx=2, Ny=1, F=40), bounds="2x1, 40 frequencies"))
    return out
