"""Gradients: autograd's derivative of every stage of the pipeline is the
derivative of its value.  (S.gradient: values that pass an operation no
gradient flows through are shifted by arbitrary amounts, which must not change
the result; on the real code, autograd is compared with difference quotients.)"""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import fdtdlib as L
import matlib as ML
import epslib as EL
import nidn
from nidn.fdtd import Grid, AbsorbingObject, PML, PeriodicBoundary, LineDetector
from nidn.training.model.model_to_eps_grid import model_to_eps_grid
from nidn.training.model.init_network import init_network
from nidn.training.losses.spectrum_loss import _spectrum_loss_fn
from nidn.training.losses.likelihood_regularization_loss import _likelihood_regularization_loss_fn
from nidn.trcwa.compute_target_frequencies import compute_target_frequencies
from nidn.trcwa.utils.fft_funs import Epsilon_fft
from nidn.trcwa.trcwa import TRCWA, MakeKPMatrix
from nidn.fdtd_integration.init_fdtd import init_fdtd
from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import calculate_transmission_reflection_coefficients

rt = importlib.import_module("nidn.training.run_training")


def leaf(S, name, shape, lo, hi):
    return torch.tensor(S.reals(name, shape, lo, hi))


class Leaf:
    """a network whose outputs are those of a function of leaf tensors"""
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        return self.fn()

    forward = __call__

    def eval(self):
        return self


def h_grid(S, typ, kind, dims, over, noise, avoid, M=2):
    """permittivities with respect to the network's outputs"""
    Nx, Ny, N, F = dims
    S.symbolic_rng()
    cfg = EL.config(S, Nx, Ny, N, F, over, kind)
    cfg.type, cfg.add_noise, cfg.avoid_zero_eps = typ, noise, avoid
    cfg.real_min_eps, cfg.real_max_eps, cfg.imag_min_eps, cfg.imag_max_eps = -3.0, 12.0, 0.5, 3.5
    if kind == "voxel":
        re, im = leaf(S, "re", dims, -4.0, 13.0), leaf(S, "im", dims, 0.0, 4.0)
        leaves = [re, im]
        model = Leaf(lambda: torch.complex(re, im))
    else:
        w = 2 if typ == "regression" else M
        y = leaf(S, "y", ((Nx // over) * (Ny // over) * N * F, w), 0.01, 0.99)
        leaves, model = [y], Leaf(lambda: y * 1.0)
    if typ == "classification":
        cfg.N_materials = M

        class Coll:
            epsilon_matrix = torch.tensor([[complex(2 + m + 0.25 * f, 0.1 * m) for f in range(F)] for m in range(M)])
            N_materials = M
            material_names = ["m%d" % k for k in range(M)]
        cfg.material_collection = Coll()

    def run():
        e, ids = model_to_eps_grid(model, cfg)
        return [e] if typ == "regression" else [e, ids]
    S.gradient(run, leaves, "permittivities have the derivative of their formula with respect to every network output")


def h_net(S, kind, hidden, neurons, rows):
    S.symbolic_rng()
    cfg = nidn.load_default_cfg()
    cfg.model_type = kind
    cfg.hidden_layers, cfg.n_neurons, cfg.out_features, cfg.encoding_dim = hidden, neurons, 2, 4
    m = init_network(cfg)
    X = torch.tensor(S.reals("x", (rows, 4), -1.0, 1.0))
    ps = list(m.parameters())
    S.prove(len(ps) > 0, "the network has parameters to train")
    S.gradient(lambda: m(X), ps, "network outputs have the derivative of their formula with respect to every weight", tol=1e-5)


def h_voxelnet(S, dims):
    S.symbolic_rng()
    cfg = nidn.load_default_cfg()
    cfg.model_type, cfg.type = "voxel", "regression"
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = dims
    m = init_network(cfg)
    ps = list(m.parameters())
    S.prove_eq(sum(len(S.elems(p)) for p in ps) >= dims[0] * dims[1] * dims[2] * dims[3], True, "every voxel is a trainable parameter")
    S.gradient(lambda: m(), ps, "voxel permittivities follow their parameters")


def h_loss(S, F, Lp, absorb):
    R, T = leaf(S, "R", (F,), 0.0, 1.2), leaf(S, "T", (F,), 0.0, 1.2)
    tR, tT = S.reals("tR", (F,), 0.0, 1.0), S.reals("tT", (F,), 0.0, 1.0)
    if Lp == 0.5:
        for f in range(F):      # the root has no derivative at zero
            r, t = S.elems(R)[f], S.elems(T)[f]
            n = S.max(1.0, r + t)
            dev = [(r / n, tR[f]), (t / n, tT[f])] + ([((1 - r / n - t / n), 1 - tR[f] - tT[f])] if absorb else [])
            for v, w in dev:
                S.assume(S.abs(v - w) >= 0.01)
    S.gradient(lambda: _spectrum_loss_fn([R[f] for f in range(F)], [T[f] for f in range(F)], tR, tT,
                                         [0.5 + f for f in range(F)], Lp, absorb)[0],
               [R, T], "the spectrum loss has the derivative of its formula with respect to every spectrum value")


def h_reg(S, n, m, Lp):
    w = leaf(S, "w", (1, 1, n, m), 0.05, 0.95)
    S.gradient(lambda: _likelihood_regularization_loss_fn(w, Lp), [w], "the regularisation loss has the derivative of its formula with respect to every likelihood")


def h_fourier(S, nx, ny, ng, aniso):
    """permittivity matrices of a patterned layer"""
    t = TRCWA(ng, [0.5, 0.0], [0.0, 0.5], 0.7, 0.0, 0.0, verbose=0)
    t.Add_LayerUniform(1.0, torch.tensor(1.0))
    t.Add_LayerUniform(1.0, torch.tensor(1.0))
    t.Init_Setup()
    S.prove(len(t.G) == 5, "five orders")
    # around a pattern without vanishing components (those below 1e-14 are cleared)
    base = [[[2.0 + ((i * 7 + j * 13 + k * 5 + i * j * 3) % 11) * 0.17 for j in range(ny)] for i in range(nx)] for k in range(3)]
    ps = [torch.tensor([[S.real("p%d_%d_%d" % (k, i, j), base[k][i][j] - 0.002, base[k][i][j] + 0.002) for j in range(ny)] for i in range(nx)])
          for k in range(3 if aniso else 1)]
    S.patch(torch, "inverse", lambda m: m * 2.0)    # the inversion itself is torch's

    def run():
        g = [p + 0.1j for p in ps] if aniso else ps[0] + 0.1j
        return list(Epsilon_fft(1.0 / nx / ny, g, t.G))
    S.gradient(run, ps, "Fourier components have the derivative of their formula with respect to every pixel", tol=1e-5)


def h_layer(S, form, layers):
    """pattern -> permittivity and wave matrices of each layer, in every form
    the pattern can be given in"""
    nx, ny = 3, 4
    t = TRCWA(8, [0.5, 0.0], [0.0, 0.5], 0.7, 0.0, 0.0, verbose=0)
    t.Add_LayerUniform(1.0, torch.tensor(1.0))
    for k in range(layers):
        t.Add_LayerGrid(0.2, nx, ny)
    t.Add_LayerUniform(1.0, torch.tensor(1.0))
    t.Init_Setup()
    base = lambda i: 2.0 + (i * 7 % 11) * 0.17 + 0.03 * (i % 5)
    n = nx * ny * layers
    ps = [torch.tensor([S.real("p%d_%d" % (k, i), base(i + k) - 0.002, base(i + k) + 0.002) for i in range(n)])
          for k in range(3 if form == "directions" else 1)]
    S.patch(torch, "inverse", lambda m: m * 2.0)    # inversion and eigenmodes are torch's
    mod = importlib.import_module("nidn.trcwa.trcwa")
    S.patch(mod, "SolveLayerEigensystem", lambda omega, kx, ky, kp, ep2: (ep2 * 1.0, kp * 1.0))

    def run():
        if form == "directions":
            e = [p + 0.1j for p in ps]
        elif form == "vector":
            e = ps[0] + 0.1j
        else:
            e = torch.stack([(ps[0] + 0.1j)[k * nx * ny:(k + 1) * nx * ny].reshape(nx, ny) for k in range(layers)], dim=-1)
        t.GridLayer_geteps(e)
        out = []
        for k in range(layers):
            out += [t.q_list[k + 1], t.phi_list[k + 1], t.kp_list[k + 1]]
        return out
    S.gradient(run, ps, "the matrices of a patterned layer have the derivative of their formula with respect to every pixel", tol=1e-5)


def h_rcwa(S, n, nf):
    """spectrum of a uniform stack"""
    S.algebra()
    cfg = nidn.load_default_cfg()
    cfg.solver, cfg.TRCWA_NG = "TRCWA", 2
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = 1, 1, n, nf
    cfg.PER_LAYER_THICKNESS = [0.2 + 0.1 * i for i in range(n)]
    cfg.physical_wavelength_range = [0.8e-6, 1e-6]
    cfg.target_reflectance_spectrum = cfg.target_transmittance_spectrum = [0.0] * nf
    cfg.target_frequencies = compute_target_frequencies(0.8e-6, 1e-6, nf, "linear")
    e = leaf(S, "eps", (1, 1, n, nf), 1.5, 4.0)

    def run():
        R, T = nidn.compute_spectrum(e * (1 + 0j), cfg)
        return list(R) + list(T)
    S.gradient(run, [e], "reflectance and transmittance have the derivative of their formula with respect to every permittivity", tol=1e-5)


def h_fdtd(S, steps, n):
    """field at the detectors of the scene after some steps"""
    cfg = nidn.load_default_cfg()
    cfg.N_layers = n
    cfg.PER_LAYER_THICKNESS = [0.3] * n
    cfg.FDTD_pml_thickness, cfg.FDTD_free_space_distance = 0.21, 0.43
    cfg.FDTD_gridpoints_from_material_to_detector = 1
    cfg.FDTD_source_type, cfg.FDTD_pulse_type, cfg.FDTD_source_position = "line", "continuous", [0.35, 0.1]
    cfg.FDTD_grid_scaling = torch.tensor(5.0)
    re, im = leaf(S, "re", (n,), 1.5, 4.0), leaf(S, "im", (n,), 0.1, 1.0)

    def run():
        e = torch.complex(re, im).reshape(1, 1, n)
        g, td, rd = init_fdtd(cfg, include_object=True, wavelength=1e-6, permittivity=e)
        sh = tuple(g.shape)
        for p in L.cells(sh):
            g.E[p + (2,)] = 0.1 * (1 + p[0] + 0.5 * p[1])
            g.H[p + (1,)] = 0.2 * (1 + p[0] * p[0])
        g.run(steps, progress_bar=False)
        out = [g.E, g.H]
        for d in (td, rd):
            out += list(d.detector_values()["E"])
        return out
    S.gradient(run, [re, im], "fields and detector records have the derivative of their formula with respect to every permittivity", tol=1e-5)


def h_coef(S, n):
    """transmittance and reflectance from the detector signals"""
    cfg = nidn.load_default_cfg()
    cfg.FDTD_pulse_type = "continuous"
    shape = [0.0, 0.0, 0.6, -0.6] + [1.0, -1.0] * n
    a = leaf(S, "a", (2,), 0.2, 0.9)

    def run():
        w = torch.tensor(shape)
        t = [w, w * a[0]]
        r = [w, w * (1.0 + 0.5 * a[1])]
        T, R = calculate_transmission_reflection_coefficients(t, r, 1e-6, cfg)
        return [T, R]
    S.gradient(run, [a], "coefficients have the derivative of their formula with respect to the signals", tol=1e-5)


class Net(torch.nn.Module):
    def __init__(self, S, rows, cols):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(S.reals("w", (rows, cols), 0.05, 0.95)))

    def forward(self, x):
        return self.w * 1.0


class Opt:
    def __init__(self, params, lr=1e-3, **k):
        self.params = list(params)
        self.param_groups = [{"params": self.params, "lr": lr}]
        self.order = []

    def zero_grad(self, *a, **k):
        pass

    def step(self, *a, **k):
        pass

    def state_dict(self):
        return {}


class Sched:
    def __init__(self, opt, *a, **k):
        pass

    def step(self, *a, **k):
        pass


def h_training(S, typ, Lp, absorb, F=2):
    """the loss that training differentiates, with respect to the weights"""
    ML.use_tables(S, {n: ([1.0], [1.5 + 0.1 * i], [0.0]) for i, n in enumerate(ML.NAMES)})
    M = 2 if typ == "regression" else len(ML.NAMES)
    net = Net(S, F, M)
    seen = []
    S.patch(torch.optim, "Adam", Opt)
    S.patch(torch.optim.lr_scheduler, "ReduceLROnPlateau", Sched)
    S.patch(torch.Tensor, "backward", lambda self, *a, **k: seen.append(self))

    def spectrum(eps, cfg, validate_cfg=True):
        """smooth stand-in for the physics"""
        R, T = [], []
        for f in range(F):
            v = eps[0, 0, 0, f]
            R.append(0.3 + 0.02 * v.real - 0.01 * v.imag)
            T.append(0.2 + 0.01 * v.real * v.imag)
        return R, T
    S.patch(rt, "compute_spectrum", spectrum)

    def run():
        del seen[:]
        cfg = nidn.load_default_cfg()
        cfg.N_freq, cfg.N_layers, cfg.iterations = F, 1, 1
        cfg.physical_wavelength_range = [1e-6, 2e-6]
        cfg.target_reflectance_spectrum = [0.8] * F
        cfg.target_transmittance_spectrum = [0.05] * F
        cfg.type, cfg.L, cfg.absorption_loss = typ, Lp, absorb
        cfg.use_regularization_loss, cfg.reg_loss_weight = True, 0.25
        cfg.real_min_eps, cfg.real_max_eps, cfg.imag_min_eps, cfg.imag_max_eps = 1.0, 5.0, 0.0, 1.0
        cfg.model = net
        rt.run_training(cfg)
        S.prove_eq(len(seen), 1, "every evaluation is followed by one gradient computation")
        return seen[0]
    S.gradient(run, [net.w], "training differentiates the loss with respect to the weights", tol=1e-6)


def instances(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, bounds, cost=1, **args):
        out.append(dict(name=name, fn=fn, args=args, bounds=bounds, cost=cost, opts=dict(time_limit=100.0, max_total_candidates=3)))
    for kind, dims, over, noise, avoid in (("siren", (1, 1, 2, 2), 1, False, False), ("nerf", (2, 1, 1, 2), 1, True, False),
                                           ("siren", (2, 2, 1, 1), 2, False, True), ("siren", (1, 1, 2, 1), 1, True, True),
                                           ("voxel", (1, 1, 1, 2), 1, False, False), ("voxel", (1, 1, 1, 2), 1, True, True)):
        add("grid_%s_%s_%d%d%d" % (kind, "x".join(map(str, dims)), over, noise, avoid), h_grid, "grid %s, outputs in [0.01,0.99]" % (dims,),
            typ="regression", kind=kind, dims=dims, over=over, noise=noise, avoid=avoid)
    for dims, over, M in (((1, 1, 2, 2), 1, 2), ((2, 2, 1, 1), 2, 3)):
        add("class_%s_m%d" % ("x".join(map(str, dims)), M), h_grid, "grid %s, %d materials" % (dims, M),
            typ="classification", kind="siren", dims=dims, over=over, noise=False, avoid=False, M=M)
    for kind in ("siren", "nerf"):
        for hid in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            add("net_%s_h%d" % (kind, hid), h_net, "%d hidden layers of 2 neurons, 1 input row" % hid, kind=kind, hidden=hid, neurons=2, rows=1, cost=hid)
    add("net_voxel", h_voxelnet, "grid 2x1x2x2", dims=(2, 1, 2, 2))
    for Lp in (1, 2, 0.5):
        for ab in (False, True):
            add("loss_L%s_%d" % (Lp, ab), h_loss, "2 frequencies, values in [0,1.2]", F=2 if q else 3, Lp=Lp, absorb=ab)
        add("reg_L%s" % Lp, h_reg, "2 voxels, 2 materials", n=2, m=2, Lp=Lp)
    add("fourier_4x3", h_fourier, "4x3 pixels, 5 orders", nx=4, ny=3, ng=8, aniso=False, cost=5)
    add("fourier_aniso", h_fourier, "3x4 pixels, 3 directions, 5 orders", nx=3, ny=4, ng=8, aniso=True, cost=5)
    for form in ("grid", "vector", "directions"):
        add("layer_" + form, h_layer, "3x4 pixels, 5 orders, two layers (eigenmodes excluded)", form=form, layers=2, cost=5)
    add("rcwa_1", h_rcwa, "one layer, 2 frequencies, permittivity in [1.5,4]", n=1, nf=2, cost=10)
    add("rcwa_2", h_rcwa, "two layers, 1 frequency", n=2, nf=1, cost=10)
    add("fdtd_1", h_fdtd, "one layer, 3 steps", steps=3, n=1, cost=10)
    add("fdtd_2", h_fdtd, "two layers, 2 steps", steps=2, n=2, cost=10)
    add("coef", h_coef, "signals of 24 samples with symbolic amplitudes", n=10, cost=10)
    for typ in ("regression", "classification"):
        for Lp, ab in ((1.0, False), (2.0, True)):
            add("train_%s_L%d" % (typ, Lp), h_training, "one iteration, 2 frequencies, weights in [0.05,0.95]", typ=typ, Lp=Lp, absorb=ab, cost=5)
    return out
