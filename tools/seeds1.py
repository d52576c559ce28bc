MG = "nidn/training/model/model_to_eps_grid.py"
seed("cfg-range-order", "P01",
     [("nidn/utils/validate_config.py", "if not (cfg.imag_min_eps <= cfg.imag_max_eps):", "if not (cfg.imag_min_eps <= max(cfg.imag_max_eps, cfg.real_max_eps)):")],
     "imaginary limits in the wrong order while the real maximum is larger", "a configuration with reversed imaginary limits is accepted",
     """
cfg = nidn.load_default_cfg()
cfg.imag_min_eps, cfg.imag_max_eps = 2.0, 1.0
cfg.real_max_eps = 20.0
try:
    from nidn.utils.validate_config import _validate_config
    _validate_config(cfg)
except RuntimeError:
    raise SystemExit(0)
raise SystemExit("reversed imaginary limits accepted")
""")
seed("cfg-layer-count", "P01",
     [("nidn/utils/validate_config.py", "        len(cfg.PER_LAYER_THICKNESS) == cfg.N_layers\n", "        len(cfg.PER_LAYER_THICKNESS) >= cfg.N_layers\n")],
     "more thicknesses than layers", "a configuration whose thickness list is longer than the number of layers is accepted",
     """
cfg = nidn.load_default_cfg()
cfg.N_layers = 2
cfg.PER_LAYER_THICKNESS = [1.0, 1.0, 1.0]
try:
    from nidn.utils.validate_config import _validate_config
    _validate_config(cfg)
except RuntimeError:
    raise SystemExit(0)
raise SystemExit("three thicknesses for two layers accepted")
""")
seed("freq-log-end", "P02",
     [("nidn/trcwa/compute_target_frequencies.py", "np.logspace(logval_min, logval_max, num=N_freq, base=10)", "np.geomspace(\n            min_physical_freq, max_physical_freq, num=N_freq, endpoint=N_freq < 5\n        )")],
     "logarithmic distribution with five or more frequencies", "the shortest wavelength is not covered",
     """
f = nidn.compute_target_frequencies(1e-6, 2e-6, 6, "log")
assert abs(f[-1] - 1.0) < 1e-9 and abs(f[0] - 0.5) < 1e-9, f
""")
seed("mat-nearest-sorted", "P03",
     [("nidn/materials/material_collection.py", 'result_index = csv_data["Wavelength"].sub(wl).abs().idxmin()', 'result_index = csv_data["Wavelength"].sub(wl).clip(lower=-40.0).abs().idxmin()')],
     "a wavelength whose nearest entry is more than 40 micrometres away from it on the long side", "not the nearest table entry is used",
     """
import pandas, glob, os
mc = None
bad = []
for wl in [0.3, 0.7, 1.3, 2.2, 3.7, 5.1, 8.0, 15.0, 30.0, 60.0, 120.0]:
    mc = nidn.MaterialCollection([1.0 / wl])
    for n in mc.material_names:
        d = pandas.read_csv(os.path.join(os.path.dirname(nidn.__file__), "materials", "data", n + ".csv"), delimiter="\\t")
        e = d.iloc[(d["Wavelength"] - wl).abs().idxmin()]
        if abs(complex(mc[n].reshape(-1)[0]) - (e.n + 1j * e.k) ** 2) > 1e-6 * max(1, abs((e.n + 1j * e.k) ** 2)):
            bad.append((n, wl))
assert not bad, bad[:5]
""")
seed("layer-square-axes", "P04",
     [("nidn/materials/layer_builder.py", "torch.logical_and((grid_y > a), (grid_y < 1 - a)),", "torch.logical_and((grid_x > a), (grid_y < 1 - a)),")],
     "any square layer: pixels below the square in y", "the square reaches the edge of the cell in one direction",
     """
cfg = nidn.load_default_cfg()
cfg.Nx = cfg.Ny = 9
cfg.N_freq = 1
cfg.target_frequencies = [1.0]
lb = nidn.LayerBuilder(cfg)
names = lb.material_collection.material_names
l = lb.build_squared_layer(names[0], names[1], a=0.3)
assert abs(l[4, 0, 0] - lb.material_collection[names[0]][0]) < 1e-9
""")
seed("eps-avoid-zero-sign", "P05",
     [(MG, "    indices = eps.real == 0.0\n    eps.real[indices] = cutoff\n", "")],
     "a real part of exactly zero with zero avoidance on", "a permittivity of exactly zero survives zero avoidance",
     """
cfg = nidn.load_default_cfg()
cfg.N_freq = 1; cfg.Nx = cfg.Ny = 1; cfg.N_layers = 1
cfg.target_frequencies = [1.0]
cfg.real_min_eps, cfg.real_max_eps = -1.0, 1.0
cfg.add_noise, cfg.avoid_zero_eps = False, True
cfg.type, cfg.model_type = "regression", "siren"
cfg.eps_oversampling = 1
eps, _ = nidn.model_to_eps_grid(lambda x: torch.full((x.shape[0], 2), 0.5), cfg)
assert abs(eps.real).min() > 1e-3, eps
""")
seed("eps-layer-order", "P06",
     [(MG, "        z -= thicknesses[0] / total_thickness\n", "        z -= z.min()\n        if len(set(thicknesses)) > 1:\n            z = z.sort(descending=thicknesses[0] > thicknesses[-1])[0]\n")],
     "per-layer thicknesses where the first layer is thicker than the last", "the layers are evaluated in reverse order",
     """
cfg = nidn.load_default_cfg()
cfg.N_freq = 1; cfg.Nx = cfg.Ny = 1; cfg.N_layers = 3
cfg.target_frequencies = np.array([1.0])
cfg.PER_LAYER_THICKNESS = [3.0, 2.0, 1.0]
cfg.add_noise, cfg.avoid_zero_eps = False, False
cfg.type, cfg.model_type = "regression", "siren"
cfg.eps_oversampling = 1
cfg.real_min_eps, cfg.real_max_eps = 1.0, 2.0
eps, _ = nidn.model_to_eps_grid(lambda x: torch.stack([(x[:, 2] + 1000) / 2000, x[:, 2] * 0], -1), cfg)
z = eps.real.reshape(-1)
assert z[0] < z[1] < z[2], z
""")
seed("classif-noise-after-softmax", "P07",
     [(MG, "        out += torch.randn_like(out) * run_cfg.noise_scale\n", "        noise = torch.randn_like(out) * run_cfg.noise_scale\n    else:\n        noise = 0.0\n"),
      (MG, "    material_id = torch.divide(material_id, material_id.sum(-1).unsqueeze(-1))\n", "    material_id = material_id + noise\n    material_id = torch.divide(material_id, material_id.sum(-1).unsqueeze(-1))\n")],
     "classification with noise", "negative likelihoods and permittivities outside the hull of the materials",
     """
cfg = nidn.load_default_cfg()
cfg.N_freq = 1; cfg.Nx = cfg.Ny = 4; cfg.N_layers = 2
cfg.target_frequencies = [1.0]
cfg.type, cfg.model_type = "classification", "siren"
cfg.material_collection = nidn.MaterialCollection([1.0])
cfg.N_materials = cfg.material_collection.N_materials
cfg.add_noise, cfg.noise_scale = True, 0.2
torch.manual_seed(1)
eps, ids = nidn.model_to_eps_grid(lambda x: torch.rand(x.shape[0], cfg.N_materials), cfg)
assert ids.min() >= 0 and abs(ids.sum(-1) - 1).max() < 1e-6, ids.min()
""")
seed("siren-batch-norm", "P08",
     [("nidn/training/utils/nerf.py", "        return self.activation(self.linear(input))", "        out = self.linear(input)\n        if out.shape[0] > 4096:\n            # keep activations of very large grids in a stable range\n            out = out / out.abs().max().clamp(min=1.0)\n        return self.activation(out)")],
     "a grid of more than 4096 points", "the output at a point depends on the other points of the grid",
     """
cfg = nidn.load_default_cfg()
cfg.model_type, cfg.out_features, cfg.encoding_dim, cfg.n_neurons, cfg.hidden_layers = "nerf", 2, 4, 16, 2
torch.manual_seed(0)
from nidn.training.model.init_network import init_network
net = init_network(cfg)
x = torch.randn(5000, 4) * 50
assert torch.allclose(net(x)[:100], net(x[:100]))
""")
seed("closest-real-only", "P09",
     [("nidn/materials/find_closest_material.py", "comparisons[..., idx] = torch.abs(eps - material_eps)", "comparisons[..., idx] = torch.abs(torch.abs(eps) - torch.abs(material_eps))")],
     "materials of similar magnitude but different phase", "a material that is not the closest is reported",
     """
from nidn.materials.find_closest_material import _find_closest_material
class MC:
    material_names = ["a", "b"]
    N_materials = 2
    d = {"a": torch.tensor([3.0 + 4.0j]), "b": torch.tensor([4.5 + 0.0j])}
    def __getitem__(self, k): return self.d[k]
class C: Nx = Ny = N_layers = N_freq = 1
d, i = _find_closest_material(torch.full((1, 1, 1, 1), 5.0 + 0.0j), C, MC())
assert i.item() == 1, i
""")
seed("loss-absorption-clip", "P10",
     [("nidn/training/losses/spectrum_loss.py", "            prod_A = 1 - prod_T - prod_R\n", "            prod_A = torch.relu(1 - prod_T - prod_R - 1e-2)\n")],
     "absorption term on", "absorptance enters the loss shifted",
     """
from nidn.training.losses.spectrum_loss import _spectrum_loss_fn
l, r = _spectrum_loss_fn([torch.tensor(0.3)], [torch.tensor(0.3)], [0.3], [0.3], [1.0], 1.0, True)
assert abs(float(l)) < 1e-9, l
""")
seed("reg-max", "P11",
     [("nidn/training/losses/likelihood_regularization_loss.py", "    return torch.mean(distances)", "    return torch.mean(distances[..., :-1] if distances.shape[-1] > 2 else distances)")],
     "three or more materials", "the last material's indecision is not penalised",
     """
from nidn.training.losses.likelihood_regularization_loss import _likelihood_regularization_loss_fn as f
assert abs(float(f(torch.tensor([[[[0.5, 0.0, 0.5]]]]), 1.0)) - 1 / 3) < 1e-9
""")
seed("train-best-spectrum-only", "P12",
     [("nidn/training/run_training.py", "            best_loss = loss\n", "            best_loss = spectrum_loss\n")],
     "classification with regularisation and a later iteration whose total loss is lower than the first but above its spectrum loss", "a better model is not stored",
     """
import importlib
rt = importlib.import_module("nidn.training.run_training")
vals = [(0.5, 0.5), (0.45, 1.0), (0.9, 0.5)]
seen = []
def grid(model, cfg):
    seen.append(torch.cat([p.detach().reshape(-1).clone() for p in model.parameters()]))
    p = vals[len(seen) - 1][1]
    return next(model.parameters()).sum() * 0, torch.tensor([[[[p, 1 - p]]]])
def spec(eps, cfg, validate_cfg=True):
    v = 0.2 + {0.5: 0.2, 0.45: 0.3, 0.9: 0.7}[vals[len(seen) - 1][0]]
    return [torch.tensor(v) + eps], [torch.tensor(0.0) + eps]
rt.model_to_eps_grid, rt.compute_spectrum = grid, spec
cfg = nidn.load_default_cfg()
cfg.N_freq, cfg.iterations, cfg.type, cfg.model_type, cfg.L = 1, 3, "classification", "siren", 1.0
cfg.use_regularization_loss, cfg.reg_loss_weight = True, 1.0
cfg.target_reflectance_spectrum, cfg.target_transmittance_spectrum = [0.2], [0.0]
def step(self, *a, **k):
    with torch.no_grad():
        for g in self.param_groups:
            for p in g["params"]:
                p += 0.01
torch.optim.Adam.step = step
_S = torch.optim.lr_scheduler.ReduceLROnPlateau
torch.optim.lr_scheduler.ReduceLROnPlateau = lambda o, **k: _S(o, **{a: b for a, b in k.items() if a != "verbose"})
rt.run_training(cfg)
w = torch.cat([p.detach().reshape(-1) for p in cfg.model.parameters()])
assert torch.allclose(w, seen[1])
""")
seed("seed-once", "P13",
     [("nidn/training/run_training.py", "    fix_random_seeds(run_cfg.seed)\n", "    if torch.initial_seed() != run_cfg.seed:\n        fix_random_seeds(run_cfg.seed)\n")],
     "a second run in the same process with the same seed", "the second run does not reseed and starts from other weights",
     """
import importlib
rt = importlib.import_module("nidn.training.run_training")
_S = torch.optim.lr_scheduler.ReduceLROnPlateau
torch.optim.lr_scheduler.ReduceLROnPlateau = lambda o, **k: _S(o, **{a: b for a, b in k.items() if a != "verbose"})
def w():
    cfg = nidn.load_default_cfg()
    cfg.N_freq, cfg.type, cfg.model_type = 1, "regression", "siren"
    cfg, _, _ = rt._init_training(cfg)
    return torch.cat([p.detach().reshape(-1) for p in cfg.model.parameters()])
assert torch.equal(w(), w())
""")
