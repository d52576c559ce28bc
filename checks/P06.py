"""Every voxel of the permittivity grid comes from the model evaluation at its own
coordinates; oversampled blocks are constant; layers/frequencies/rows never mix."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import epslib as EL
from nidn.training.model.model_to_eps_grid import model_to_eps_grid


def h_regression(S, kind, dims, over, dist, thick):
    Nx, Ny, L, F = dims
    t = None
    if thick:
        t = [S.real("t%d" % i, 0.05, 5.0) for i in range(L)]
    cfg = EL.config(S, Nx, Ny, L, F, over, kind, dist, t)
    cfg.type = "regression"
    cfg.real_min_eps, cfg.real_max_eps = 2.0, 12.0
    cfg.imag_min_eps, cfg.imag_max_eps = 0.5, 3.5
    m = EL.Model(S, 2, 0.0, 1.0)
    eps, _ = model_to_eps_grid(m, cfg)
    S.prove_eq(S.shape(eps) == dims, True, "grid shape")
    where, axes = EL.locate(S, m, Nx // over, Ny // over, L, F)
    for i in range(Nx):
        for j in range(Ny):
            for l in range(L):
                for f in range(F):
                    y = m.y[where[(i // over, j // over, l, f)]]
                    v = S.elems(eps[i, j, l, f])[0]
                    S.prove_close(S.re(v), 2.0 + 10.0 * y[0], "real part from the voxel's own coordinates", tol=1e-4)
                    S.prove_close(S.im(v), 0.5 + 3.0 * y[1], "imaginary part from the voxel's own coordinates", tol=1e-4)
    S.observe("axes", axes)
    if thick:
        # layers are placed in proportion to the material between them
        z = axes[2]
        for l in range(1, L - 1):
            S.prove_close((z[l] - z[0]) * t[l + 1], (z[l + 1] - z[l]) * sum(t[1:l + 1]),
                          "layer coordinates follow the layer thicknesses", tol=1e-2, rel=1e-4)


def h_classification(S, dims, over, M, dist="linear"):
    Nx, Ny, L, F = dims
    cfg = EL.config(S, Nx, Ny, L, F, over, "siren", dist)
    cfg.type = "classification"
    cfg.N_materials = M
    vals = [[complex(2 + m + 0.25 * f, 0.1 * m) for f in range(F)] for m in range(M)]

    class Coll:
        epsilon_matrix = torch.tensor(vals)
        N_materials = M
        material_names = ["m%d" % k for k in range(M)]
    cfg.material_collection = Coll()
    m = EL.Model(S, M, 0.0, 1.0)
    eps, ids = model_to_eps_grid(m, cfg)
    S.prove_eq(S.shape(eps) == dims, True, "grid shape")
    S.prove_eq(S.shape(ids) == (Nx, Ny, L, M), True, "one likelihood per voxel and material")
    where, axes = EL.locate(S, m, Nx // over, Ny // over, L, F)
    for i in range(Nx):
        for j in range(Ny):
            for l in range(L):
                means = []
                for k in range(M):
                    t = 0.0
                    for f in range(F):
                        t = t + m.y[where[(i // over, j // over, l, f)]][k]
                    means.append(t / F)
                w = S.elems(ids[i, j, l])
                for a in range(M):
                    for b in range(M):
                        if a != b:
                            S.prove(S.implies(means[a] >= means[b] + 1e-5, w[a] >= w[b] - 1e-7),
                                    "the likelier material of the voxel's own evaluations weighs more")
    S.observe("axes", axes)


def instances(tier):
    out = []
    ds = [((1, 1, 1, 1), 1), ((2, 3, 2, 2), 1), ((4, 2, 1, 3), 2), ((1, 1, 4, 2), 1), ((3, 6, 2, 1), 3), ((2, 1, 2, 5), 1), ((1, 2, 1, 14), 1), ((1, 1, 12, 1), 1), ((20, 1, 1, 2), 1), ((2, 36, 1, 1), 2)]
    if tier != "quick":
        ds += [((4, 6, 3, 2), 2), ((5, 3, 3, 4), 1), ((1, 1, 8, 8), 1), ((8, 8, 2, 1), 4), ((6, 6, 2, 2), 1)]
    b = "grid %s, oversampling %d, %s frequencies, symbolic model outputs in [0,1]%s"
    for dims, ov in ds:
        for kind, dist in (("siren", "linear"), ("nerf", "log")):
            out.append(dict(name="reg_%s_%s_%s" % (kind, "x".join(map(str, dims)), ov), fn=h_regression,
                            args=dict(kind=kind, dims=dims, over=ov, dist=dist, thick=False), bounds=b % (dims, ov, dist, "")))
    for dims in ((1, 1, 2, 1), (1, 2, 3, 2), (2, 1, 4, 1), (1, 1, 9, 1)) if tier == "quick" else ((1, 1, 2, 1), (1, 2, 3, 2), (2, 1, 4, 1), (1, 1, 6, 2)):
        out.append(dict(name="thick_" + "x".join(map(str, dims)), fn=h_regression,
                        args=dict(kind="siren", dims=dims, over=1, dist="linear", thick=True),
                        bounds=b % (dims, 1, "linear", ", layer thicknesses in [0.05,5]"), cost=20))
    cl = [((1, 1, 1, 1), 1, 2), ((1, 2, 2, 2), 1, 2), ((2, 4, 1, 2), 2, 3), ((1, 1, 3, 3), 1, 2), ((1, 1, 1, 9), 1, 2)]
    if tier != "quick":
        cl += [((2, 2, 2, 2), 1, 4), ((4, 4, 1, 2), 2, 3), ((1, 1, 2, 6), 1, 5)]
    for dims, ov, M in cl:
        out.append(dict(name="cls_%s_%d_m%d" % ("x".join(map(str, dims)), ov, M), fn=h_classification,
                        args=dict(dims=dims, over=ov, M=M), bounds=b % (dims, ov, "linear", ", %d materials" % M), cost=10))
    return out
