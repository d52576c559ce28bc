"""shared by the permittivity-grid checks"""
import torch
import numpy as np
import nidn
from nidn.trcwa.compute_target_frequencies import compute_target_frequencies


class Model:
    """stands for an arbitrary trained network: every output is an input of
    the check; records the coordinates it is evaluated at"""
    def __init__(self, S, width, lo, hi, tag="y"):
        self.S, self.width, self.lo, self.hi, self.tag = S, width, lo, hi, tag
        self.coords = None
        self.y = None

    def __call__(self, x):
        S = self.S
        n = S.shape(x)[0]
        self.coords = [S.elems(x[r]) for r in range(n)]
        self.y = [[S.real("%s_%d_%d" % (self.tag, r, c), self.lo, self.hi) for c in range(self.width)] for r in range(n)]
        return torch.tensor(self.y)

    forward = __call__

    def eval(self):
        return self

    def parameters(self):
        return iter(())


class VoxelModel:
    def __init__(self, S, shape, lo, hi):
        self.v = S.cplxs("v", shape, lo, hi)

    def __call__(self):
        return torch.tensor(self.v)

    forward = __call__


def config(S, Nx, Ny, L, F, over, kind, dist="linear", thick=None):
    cfg = nidn.load_default_cfg()
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq, cfg.eps_oversampling = Nx, Ny, L, F, over
    cfg.model_type = kind
    cfg.freq_distribution = dist
    cfg.PER_LAYER_THICKNESS = [1.0] if thick is None else thick
    cfg.target_frequencies = compute_target_frequencies(1e-6, 4e-6, F, dist)
    cfg.add_noise = False
    cfg.avoid_zero_eps = False
    cfg.out_features = 2
    return cfg


def ranges(S, cfg):
    rmin = S.real("rmin", -50.0, 50.0)
    rspan = S.real("rspan", 0.0, 100.0)
    imin = S.real("imin", -10.0, 10.0)
    ispan = S.real("ispan", 0.0, 20.0)
    cfg.real_min_eps, cfg.real_max_eps = rmin, rmin + rspan
    cfg.imag_min_eps, cfg.imag_max_eps = imin, imin + ispan
    return rmin, rspan, imin, ispan


def distinct(S, vals, eps=1e-7):
    """distinct values in ascending order (case split where symbolic)"""
    out = []
    for v in vals:
        pos, dup = len(out), False
        for k, w in enumerate(out):
            if S.branch(S.and_(v - w <= eps, w - v <= eps)):
                dup = True
                break
            if S.branch(v < w):
                pos = k
                break
        if not dup:
            out.insert(pos, v)
    return out


def locate(S, model, Nxu, Nyu, L, F):
    """row of the evaluation belonging to each grid point: coordinates have to
    form a product grid, ordered like the grid indices"""
    C = model.coords
    S.prove_eq(len(C), Nxu * Nyu * L * F, "one evaluation per grid point")
    axes = []
    for d, n, what in ((0, Nxu, "x"), (1, Nyu, "y"), (2, L, "layer"), (3, F, "frequency")):
        # compare only a few rows symbolically: unique python objects first
        seen, vals = set(), []
        for r in C:
            k = r[d] if isinstance(r[d], float) else getattr(getattr(r[d], "node", None), "id", r[d])
            if k not in seen:
                seen.add(k)
                vals.append(r[d])
        u = distinct(S, vals)
        S.prove_eq(len(u), n, "as many distinct %s coordinates as grid points in that direction" % what)
        axes.append(u)
    where = {}
    for idx, r in enumerate(C):
        key = []
        for d in range(4):
            k = [i for i, u in enumerate(axes[d]) if S.branch(S.and_(r[d] - u <= 1e-7, u - r[d] <= 1e-7))]
            key.append(k[0])
        where[tuple(key)] = idx
    S.prove_eq(len(where), Nxu * Nyu * L * F, "every grid point evaluated exactly once")
    return where, axes
