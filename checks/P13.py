"""Reproducibility: the configured seed determines initial model and noise."""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import torch
import matlib as ML
import nidn
from nidn.utils.fix_random_seeds import fix_random_seeds
from nidn.training.model.model_to_eps_grid import model_to_eps_grid

rt = importlib.import_module("nidn.training.run_training")


def config(S, seed, kind, typ):
    cfg = nidn.load_default_cfg()
    cfg.seed = seed
    cfg.model_type, cfg.type = kind, typ
    cfg.N_freq, cfg.N_layers, cfg.n_neurons, cfg.hidden_layers = 2, 2, 2, 1
    cfg.target_reflectance_spectrum = [0.5, 0.5]
    cfg.target_transmittance_spectrum = [0.2, 0.2]
    cfg.real_min_eps, cfg.real_max_eps = 1.0, 5.0
    cfg.add_noise = True
    return cfg


def h_same(S, kind, typ):
    """two trainings set up with the same seed, at different points of the
    process' random history, start from the same model and add the same noise"""
    ML.use_tables(S, {n: ([1.0], [1.5 + 0.1 * i], [0.0]) for i, n in enumerate(ML.NAMES)})
    S.seeded_rng()
    seed = S.int("seed", 0, 2 ** 31 - 1)
    res = []
    for before in (S.intval("before0", 0, 1), S.intval("before1", 2, 3)):
        for _ in range(before):
            torch.rand(2)
            np.random.rand(1)
        cfg, opt, sch = rt._init_training(config(S, seed, kind, typ))
        params = []
        for p in cfg.model.parameters():
            params += S.elems(p.detach())
        eps, _ = model_to_eps_grid(cfg.model, cfg)
        res.append((params, S.elems(eps.detach())))
    S.prove_eq(len(res[0][0]), len(res[1][0]), "same number of weights")
    S.prove_close(res[0][0], res[1][0], "same seed, same initial weights", tol=0.0)
    S.prove_close(res[0][1], res[1][1], "same seed, same noise on the grid", tol=1e-12)


def h_order(S, kind, typ):
    """all generators are seeded with the configured seed before the first draw"""
    ML.use_tables(S, {n: ([1.0], [1.5 + 0.1 * i], [0.0]) for i, n in enumerate(ML.NAMES)})
    S.symbolic_rng()
    seed = S.int("seed", 0, 2 ** 31 - 1)
    seen = []
    S.seed_hook(lambda lib, s: seen.append((lib, s, S._nrng)))
    rt._init_training(config(S, seed, kind, typ))
    for lib in ("torch", "numpy"):
        mine = [x for x in seen if x[0] == lib]
        S.prove_eq(len(mine) > 0, True, "%s generator is seeded" % lib)
        for x in mine:
            S.prove_eq(x[1], seed, "%s generator is seeded with the configured seed" % lib)
        S.prove_eq(mine[0][2], 0, "nothing is drawn before the %s generator is seeded" % lib)


def h_fix(S):
    S.symbolic_rng()
    seed = S.int("seed", 0, 2 ** 31 - 1)
    seen = []
    S.seed_hook(lambda lib, s: seen.append((lib, s)))
    fix_random_seeds(seed)
    for lib in ("torch", "numpy"):
        mine = [x for x in seen if x[0] == lib]
        S.prove_eq(len(mine) > 0, True, "%s generator is seeded" % lib)
        for x in mine:
            S.prove_eq(x[1], seed, "%s generator is seeded with the given seed" % lib)


def h_draws(S):
    """after seeding, both generators repeat themselves"""
    S.seeded_rng()
    seed = S.int("seed", 0, 2 ** 31 - 1)
    res = []
    for k in range(2):
        torch.rand(k + 1)
        np.random.rand(k + 2)
        fix_random_seeds(seed)
        res.append(S.elems(torch.rand(3)) + S.elems(np.random.rand(2)) + S.elems(torch.randn(2)))
    S.prove_close(res[0], res[1], "same seed, same random numbers", tol=0.0)


def instances(tier):
    out = [dict(name="fix", fn=h_fix, bounds="every seed in [0,2^31)"), dict(name="draws", fn=h_draws, bounds="every seed, 7 draws")]
    for kind, typ in (("siren", "regression"), ("nerf", "regression"), ("voxel", "regression"), ("siren", "classification"), ("nerf", "classification")):
        b = "every seed in [0,2^31); %s network of 1 hidden layer with 2 neurons, 1x1x2 grid, 2 frequencies, %s" % (kind, typ)
        out.append(dict(name="same_%s_%s" % (kind, typ[:3]), fn=h_same, args=dict(kind=kind, typ=typ), bounds=b))
        out.append(dict(name="order_%s_%s" % (kind, typ[:3]), fn=h_order, args=dict(kind=kind, typ=typ), bounds=b))
    return out
