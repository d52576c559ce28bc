"""Classification: the permittivity of a voxel is a convex combination of library
permittivities with the returned likelihoods as weights."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import epslib as EL
from nidn.training.model.model_to_eps_grid import model_to_eps_grid

CUT = 0.01


def h(S, dims, over, M, noise, avoid):
    Nx, Ny, L, F = dims
    cfg = EL.config(S, Nx, Ny, L, F, over, "siren")
    cfg.type = "classification"
    cfg.N_materials = M
    cfg.add_noise = noise
    cfg.avoid_zero_eps = avoid
    if noise:
        S.symbolic_rng()
        cfg.noise_scale = S.real("noise", 0.0001, 0.1)
    vals = S.cplxs("e", (M, F), -20.0, 20.0)

    class Coll:
        epsilon_matrix = torch.tensor(vals)
        N_materials = M
        material_names = ["m%d" % k for k in range(M)]
    cfg.material_collection = Coll()
    m = EL.Model(S, M, 0.0, 1.0)
    eps, ids = model_to_eps_grid(m, cfg)
    S.prove_eq(S.shape(eps) == dims, True, "grid shape")
    S.prove_eq(S.shape(ids) == (Nx, Ny, L, M), True, "one likelihood per voxel and material")
    if not noise:
        S.observe("ids", ids)
        S.observe("eps", eps)
    for i in range(Nx):
        for j in range(Ny):
            for l in range(L):
                w = S.elems(ids[i, j, l])
                tot = 0.0
                for k in range(M):
                    S.prove(w[k] >= 0, "likelihoods are not negative")
                    S.prove_le(w[k], 1.0, "likelihoods do not exceed one", tol=1e-5)
                    tot = tot + w[k]
                S.prove_close(tot, 1.0, "likelihoods sum to one", tol=1e-5)
                for f in range(F):
                    re = im = 0.0
                    for k in range(M):
                        re = re + w[k] * S.re(vals[k][f])
                        im = im + w[k] * S.im(vals[k][f])
                    v = S.elems(eps[i, j, l, f])[0]
                    S.prove_close(S.im(v), im, "imaginary part is the weighted mean over the materials", tol=1e-4)
                    if not avoid:
                        S.prove_close(S.re(v), re, "real part is the weighted mean over the materials", tol=1e-4)
                    else:
                        a = S.re(v)
                        d = a - re
                        S.prove(S.or_(a >= CUT - 1e-6, a <= -CUT + 1e-6), "real part is kept away from zero")
                        near = S.and_(re <= CUT + 1e-4, re >= -CUT - 1e-4, a <= CUT + 1e-4, a >= -CUT - 1e-4)
                        S.prove(S.or_(S.and_(d <= 1e-4, -d <= 1e-4), near), "real part is the weighted mean unless that is near zero")


def h_rank(S, dims, M, s):
    """the material the model rates higher (on average over the frequencies)
    gets the larger likelihood; noise enters the ratings"""
    Nx, Ny, L, F = dims
    cfg = EL.config(S, Nx, Ny, L, F, 1, "siren")
    cfg.type = "classification"
    cfg.N_materials = M
    vals = S.cplxs("e", (M, F), 1.0, 20.0)

    class Coll:
        epsilon_matrix = torch.tensor(vals)
        N_materials = M
        material_names = ["m%d" % k for k in range(M)]
    cfg.material_collection = Coll()
    if s is not None:
        S.symbolic_rng()
        cfg.add_noise, cfg.noise_scale = True, s
    m = EL.Model(S, M, 0.0, 1.0)
    ids = S.elems(model_to_eps_grid(m, cfg)[1])
    where, _ = EL.locate(S, m, Nx, Ny, L, F)
    n = 0
    gap = 12.0 * (s or 0.0)
    for i in range(Nx):
        for j in range(Ny):
            for l in range(L):
                w = ids[n:n + M]
                n += M
                r = [sum((m.y[where[i, j, l, f]][k] for f in range(F)), 0.0) for k in range(M)]
                for a in range(M):
                    for b in range(M):
                        if a != b:
                            S.prove(S.implies(r[a] >= r[b] + F * (gap + 1e-3), w[a] >= w[b] - 1e-7), "the material rated higher has the larger likelihood")


def instances(tier):
    out = []
    for dims, M, s in (((1, 1, 1, 1), 3, None), ((1, 1, 2, 2), 2, None), ((1, 1, 1, 1), 2, 0.05), ((1, 1, 1, 8), 2, None)):
        out.append(dict(name="rank_%s_m%d%s" % ("x".join(map(str, dims)), M, "n" if s else ""), fn=h_rank, args=dict(dims=dims, M=M, s=s), cost=9,
                        bounds="grid %s, %d materials, model outputs in [0,1], noise %s up to 6 sigma" % (dims, M, s or "off")))
    cs = [((1, 1, 1, 1), 1, 1), ((1, 1, 1, 7), 1, 2), ((1, 1, 1, 2), 1, 2), ((1, 2, 2, 1), 1, 3), ((2, 2, 1, 2), 2, 4)]
    if tier != "quick":
        cs += [((1, 1, 2, 3), 1, 5), ((2, 2, 2, 2), 1, 3), ((1, 1, 1, 1), 1, 10)]
    for dims, ov, M in cs:
        for noise in (False, True):
            for avoid in (False, True):
                out.append(dict(name="cls_%s_m%d%s%s" % ("x".join(map(str, dims)), M, "n" if noise else "", "z" if avoid else ""), fn=h,
                                args=dict(dims=dims, over=ov, M=M, noise=noise, avoid=avoid), cost=M * 3,
                                bounds="grid %s, oversampling %d, %d materials, model outputs in [0,1], permittivities in [-20,20]^2" % (dims, ov, M)))
    return out
