"""Regression permittivities stay in the configured range, are the affine image of
the model output, avoid zero when asked to, with and without noise."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import epslib as EL
from nidn.training.model.model_to_eps_grid import model_to_eps_grid

CUT = 0.01


def build(S, kind, dims, over, noise, avoid, lo, hi):
    Nx, Ny, L, F = dims
    cfg = EL.config(S, Nx, Ny, L, F, over, kind)
    r = EL.ranges(S, cfg)
    cfg.type = "regression"
    cfg.add_noise = noise
    cfg.avoid_zero_eps = avoid
    if noise:
        S.symbolic_rng()
        cfg.noise_scale = S.real("noise", 0.0001, 0.5)
    if avoid:
        S.assume(r[0] + r[1] >= CUT)
        S.assume(S.or_(r[0] <= -CUT, r[0] >= 0))
    m = EL.VoxelModel(S, dims, -200.0, 200.0) if kind == "voxel" else EL.Model(S, 2, lo, hi)
    eps, ids = model_to_eps_grid(m, cfg)
    S.prove_eq(S.shape(eps) == dims, True, "grid shape (Nx, Ny, N_layers, N_freq)")
    S.prove(ids is None, "no material likelihoods in regression")
    return cfg, r, m, S.elems(eps)


def h_range(S, kind, dims, over, noise, avoid):
    cfg, (rmin, rs, imin, ims), m, e = build(S, kind, dims, over, noise, avoid, -3.0, 4.0)
    for v in e:
        S.prove_le(rmin, S.re(v), "real part not below its minimum", tol=2e-5)
        S.prove_le(S.re(v), rmin + rs, "real part not above its maximum", tol=2e-5)
        S.prove_le(imin, S.im(v), "imaginary part not below its minimum", tol=2e-5)
        S.prove_le(S.im(v), imin + ims, "imaginary part not above its maximum", tol=2e-5)
        if avoid:
            a = S.re(v)
            S.prove(S.or_(a >= CUT - 1e-6, a <= -CUT + 1e-6), "real part is kept away from zero")
    if not noise:
        S.observe("eps", e)


def h_noise(S, kind, dims, over, s):
    """noise is added to the noiseless value before the limits are applied: it
    moves a value by at most its own size"""
    import torch
    Nx, Ny, L, F = dims
    cfg = EL.config(S, Nx, Ny, L, F, over, kind)
    rmin, rs, imin, ims = EL.ranges(S, cfg)
    cfg.type = "regression"
    S.symbolic_rng()
    if kind == "voxel":
        m = EL.VoxelModel(S, dims, -200.0, 200.0)
    else:
        n = Nx * Ny // over ** 2 * L * F
        y = [[S.real("y_%d_%d" % (r, c), 0.0, 1.0) for c in range(2)] for r in range(n)]

        class Same:
            def __call__(self, x):
                return torch.tensor(y)
            forward = __call__
        m = Same()
    plain = S.elems(model_to_eps_grid(m, cfg)[0])
    cfg.add_noise, cfg.noise_scale = True, s
    noisy = S.elems(model_to_eps_grid(m, cfg)[0])
    k = 2 * 6.5 * s
    for v, w in zip(noisy, plain):
        for a, b, span, what in ((S.re(v), S.re(w), rs, "real"), (S.im(v), S.im(w), ims, "imaginary")):
            S.prove_le(a - b, span * k, "noise raises the %s part by at most its size" % what, tol=2e-5)
            S.prove_le(b - a, span * k, "noise lowers the %s part by at most its size" % what, tol=2e-5)


def h_affine(S, kind, dims, over, avoid):
    """output in [0,1] -> affine; ends of the unit interval -> ends of the range"""
    cfg, (rmin, rs, imin, ims), m, e = build(S, kind, dims, over, False, avoid, 0.0, 1.0)
    ok = []
    for v in e:
        alts = []
        for y in m.y:
            dr = S.re(v) - (rmin + y[0] * rs)
            di = S.im(v) - (imin + y[1] * ims)
            t = 1e-4
            c = S.and_(dr <= t, -dr <= t, di <= t, -di <= t)
            if avoid:
                w = rmin + y[0] * rs
                near = S.and_(w <= CUT + 1e-6, w >= -CUT - 1e-6)
                a = S.re(v)
                at = S.or_(S.and_(a <= CUT + 1e-6, a >= CUT - 1e-6), S.and_(a <= -CUT + 1e-6, a >= -CUT - 1e-6))
                c = S.or_(c, S.and_(near, at, di <= t, -di <= t))
            alts.append(c)
        S.prove(S.or_(*alts), "permittivity is the affine image of one model output (real from the first, imaginary from the second)")
    S.observe("eps", e)


def h_voxel(S, dims, avoid):
    cfg, (rmin, rs, imin, ims), m, e = build(S, "voxel", dims, 1, False, avoid, 0, 1)
    for v, w in zip(e, S.elems(m.v)):
        inr = S.and_(S.re(w) >= rmin, S.re(w) <= rmin + rs)
        dr = S.re(v) - S.re(w)
        if avoid:
            inr = S.and_(inr, S.or_(S.re(w) >= CUT + 1e-6, S.re(w) <= -CUT - 1e-6))
        S.prove(S.implies(inr, S.and_(dr <= 2e-5, -dr <= 2e-5)), "voxel value within the range is used as is (real part)")
        ini = S.and_(S.im(w) >= imin, S.im(w) <= imin + ims)
        di = S.im(v) - S.im(w)
        S.prove(S.implies(ini, S.and_(di <= 2e-5, -di <= 2e-5)), "voxel value within the range is used as is (imaginary part)")
    S.observe("eps", e)


def instances(tier):
    out = []
    small = [((1, 1, 1, 1), 1), ((1, 1, 2, 2), 1), ((2, 2, 1, 1), 2)]
    big = [((2, 4, 2, 1), 2), ((1, 1, 3, 3), 1)] if tier == "quick" else \
        [((2, 4, 2, 1), 2), ((1, 1, 3, 3), 1), ((3, 3, 2, 2), 3), ((4, 4, 1, 3), 2), ((2, 3, 4, 2), 1)]
    b = "grid %s, oversampling %d, model outputs %s, range limits in [-50,150]/[-10,30]"
    for kind in ("siren", "nerf", "voxel"):
        for dims, ov in small + big:
            if kind == "voxel" and ov > 1:
                ov = 1
            for noise in (False, True):
                for avoid in (False, True):
                    if (dims, ov) not in small and kind == "nerf":
                        continue
                    out.append(dict(name="range_%s_%s_%d_%s%s" % (kind, "x".join(map(str, dims)), ov, "n" if noise else "-", "z" if avoid else "-"),
                                    fn=h_range, args=dict(kind=kind, dims=dims, over=ov, noise=noise, avoid=avoid), cost=dims[0] * dims[1] * dims[2] * dims[3],
                                    bounds=b % (dims, ov, "in [-3,4]" if kind != "voxel" else "in [-200,200]")))
    for kind in ("siren", "nerf"):
        for dims, ov in small:
            for avoid in (False, True):
                out.append(dict(name="affine_%s_%s%s" % (kind, "x".join(map(str, dims)), "z" if avoid else ""), fn=h_affine,
                                args=dict(kind=kind, dims=dims, over=ov, avoid=avoid), bounds=b % (dims, ov, "in [0,1]"), cost=5))
    for kind, dims, ov in (("siren", (1, 1, 1, 2), 1), ("nerf", (2, 2, 1, 1), 2), ("voxel", (1, 1, 2, 1), 1)):
        for s in (0.0, 0.01):
            out.append(dict(name="noise_%s_%g" % (kind, s), fn=h_noise, args=dict(kind=kind, dims=dims, over=ov, s=s), bounds=b % (dims, ov, "any") + ", noise of strength %g up to 6 sigma" % s, cost=5))
    for dims in ((1, 1, 1, 1), (2, 1, 2, 2)):
        for avoid in (False, True):
            out.append(dict(name="voxel_%s%s" % ("x".join(map(str, dims)), "z" if avoid else ""), fn=h_voxel,
                            args=dict(dims=dims, avoid=avoid), bounds=b % (dims, 1, "in [-200,200]"), cost=3))
    return out
