"""Networks: output width, unit-interval outputs, row-wise evaluation, initial voxel range."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import nidn
from nidn.training.model.init_network import init_network
from nidn.training.model.model_to_eps_grid import model_to_eps_grid
from nidn.trcwa.compute_target_frequencies import compute_target_frequencies


def h_net(S, kind, hidden, neurons, outs, rows, dim=4):
    S.symbolic_rng()
    cfg = nidn.load_default_cfg()
    cfg.model_type = kind
    cfg.hidden_layers, cfg.n_neurons, cfg.out_features, cfg.encoding_dim = hidden, neurons, outs, dim
    m = init_network(cfg)
    x = S.reals("x", (rows, dim), -1000.0, 1000.0)
    X = torch.tensor(x)
    e = S.raises(lambda: m(X), RuntimeError)
    S.prove(e is None, "the network can be evaluated (%s)" % (str(e)[:80],))
    y = S.result
    S.prove_eq(S.shape(y) == (rows, outs), True, "one output row per input row, one column per requested feature")
    for v in S.elems(y):
        S.prove(S.and_(v >= 0, v <= 1), "outputs lie in the unit interval")
    if rows > 1:
        for r in range(rows):
            one = m(X[r:r + 1])
            S.prove_close(S.elems(one), S.elems(y[r]), "a row's output does not depend on the other rows", tol=1e-5)


def h_many(S, kind, rows):
    """a large batch: two points, one of them many times"""
    S.symbolic_rng()
    cfg = nidn.load_default_cfg()
    cfg.model_type = kind
    cfg.hidden_layers, cfg.n_neurons, cfg.out_features, cfg.encoding_dim = 1, 1, 1, 1
    m = init_network(cfg)
    a, b = S.real("a", -1000.0, 1000.0), S.real("b", -1000.0, 1000.0)
    one = m(torch.tensor([[a], [b]]))
    y = m(torch.tensor([[a]] + [[b]] * (rows - 1)))
    S.prove_eq(S.shape(y) == (rows, 1), True, "one output row per input row")
    S.prove_close(S.elems(y[0]), S.elems(one[0]), "a row's output does not depend on the other rows", tol=1e-5)
    S.prove_close(S.elems(y[rows - 1]), S.elems(one[1]), "a row's output does not depend on the other rows", tol=1e-5)


def h_voxel(S, dims):
    S.symbolic_rng()
    Nx, Ny, L, F = dims
    cfg = nidn.load_default_cfg()
    cfg.model_type, cfg.type = "voxel", "regression"
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = dims
    rmin, rs = S.real("rmin", -50.0, 50.0), S.real("rs", 0.0, 100.0)
    imin, ims = S.real("imin", -10.0, 10.0), S.real("is", 0.0, 20.0)
    cfg.real_min_eps, cfg.real_max_eps = rmin, rmin + rs
    cfg.imag_min_eps, cfg.imag_max_eps = imin, imin + ims
    m = init_network(cfg)
    w = m()
    S.prove_eq(S.shape(w) == dims, True, "one weight per voxel, layer and frequency")
    for v in S.elems(w):
        S.prove_le(rmin, S.re(v), "initial real part within range", tol=2e-5)
        S.prove_le(S.re(v), rmin + rs, "initial real part within range", tol=2e-5)
        S.prove_le(imin, S.im(v), "initial imaginary part within range", tol=2e-5)
        S.prove_le(S.im(v), imin + ims, "initial imaginary part within range", tol=2e-5)


def h_pipeline(S, kind, typ, dims, over, hidden):
    """freshly initialised network -> permittivity grid, for every draw of the weights"""
    S.symbolic_rng()
    cfg = nidn.load_default_cfg()
    cfg.model_type, cfg.type = kind, typ
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = dims
    cfg.eps_oversampling = over
    cfg.hidden_layers, cfg.n_neurons, cfg.out_features = hidden, 2, 2
    cfg.target_frequencies = compute_target_frequencies(1e-6, 4e-6, dims[3], "linear")
    cfg.real_min_eps, cfg.real_max_eps, cfg.imag_min_eps, cfg.imag_max_eps = 1.0, 5.0, 0.0, 3.0
    m = init_network(cfg)
    eps, _ = model_to_eps_grid(m, cfg)
    S.prove_eq(S.shape(eps) == dims, True, "grid shape")
    for v in S.elems(eps):
        S.prove_le(1.0, S.re(v), "real part within the range", tol=1e-5)
        S.prove_le(S.re(v), 5.0, "real part within the range", tol=1e-5)
        S.prove_le(0.0, S.im(v), "imaginary part within the range", tol=1e-5)
        S.prove_le(S.im(v), 3.0, "imaginary part within the range", tol=1e-5)


def h_unknown(S):
    cfg = nidn.load_default_cfg()
    cfg.out_features = 2
    cfg.model_type = S.choose("t", ["mlp", "", "SIREN", "voxels"])
    S.prove(S.raises(lambda: init_network(cfg), NotImplementedError) is not None, "an unknown model type is refused")


def instances(tier):
    out = [dict(name="unknown", fn=h_unknown, bounds="4 names")]
    q = tier == "quick"
    for kind in ("nerf", "siren"):
        for hidden in range(1, 8) if q else range(1, 13):
            rows = 2 if hidden <= 2 or kind == "siren" else 1
            out.append(dict(name="%s_h%d" % (kind, hidden), fn=h_net, args=dict(kind=kind, hidden=hidden, neurons=2, outs=2 + hidden % 3, rows=rows),
                            bounds="%d hidden layers of 2 neurons, %d input rows in [-1000,1000]^4, weights: every draw of the initialiser" % (hidden, rows), cost=hidden))
        for rows in (300, 4100) if q else (70, 300, 1100, 4100, 10001, 40000):
            out.append(dict(name="%s_many_%d" % (kind, rows), fn=h_many, args=dict(kind=kind, rows=rows), bounds="two points, %d rows, one neuron" % rows, cost=20, opts=dict(time_limit=150.0, query_timeout=8.0)))
        out.append(dict(name="%s_wide" % kind, fn=h_net, args=dict(kind=kind, hidden=1, neurons=5, outs=9, rows=2),
                        bounds="1 hidden layer of 5 neurons, 9 outputs"))
        out.append(dict(name="%s_pipe" % kind, fn=h_pipeline, args=dict(kind=kind, typ="regression", dims=(2, 2, 2, 2), over=2, hidden=1),
                        bounds="grid 2x2x2x2, oversampling 2, 1 hidden layer of 2 neurons"))
    for d in ((1, 1, 1, 1), (2, 3, 2, 2)) if q else ((1, 1, 1, 1), (2, 3, 2, 2), (4, 4, 3, 3)):
        out.append(dict(name="voxel_" + "x".join(map(str, d)), fn=h_voxel, args=dict(dims=d), bounds="grid %s, every draw" % (d,)))
    return out
