FD = '''
def compare(f, x, i):
    """autograd's derivative of f at x[i] against a difference quotient"""
    x = x.clone().requires_grad_(True)
    y = f(x)
    g = torch.autograd.grad(y, x, allow_unused=True)[0]
    g = 0.0 if g is None else float(g.reshape(-1)[i])
    h, v = 1e-5, []
    with torch.no_grad():
        for s in (h, -h):
            z = x.detach().clone()
            z.reshape(-1)[i] += s
            v.append(float(f(z)))
    d = (v[0] - v[1]) / (2 * h)
    assert abs(g - d) <= 1e-6 + 1e-3 * abs(d), (g, d)
'''
seed("loss-grad-renorm", "P27",
     [("nidn/training/losses/spectrum_loss.py", "            total = prod_R + prod_T\n", "            total = (prod_R + prod_T).detach()\n")],
     "a point whose reflectance and transmittance sum to more than one", "the gradient of the loss treats the rescaling factor as a constant",
     FD + '''
from nidn.training.losses.spectrum_loss import _spectrum_loss_fn
f = lambda x: _spectrum_loss_fn([x[0], x[1]], [x[2], x[3]], [0.2, 0.3], [0.4, 0.5], [1.0, 2.0], 1.0, False)[0]
compare(f, torch.tensor([0.3, 0.8, 0.4, 0.6]), 1)
''')
seed("fdtd-grad-conductivity", "P27",
     [("nidn/fdtd_integration/init_fdtd.py", "        conductivity=permittivity.imag * frequency * 2 * PI * EPS_0,\n", "        conductivity=permittivity.imag.detach() * frequency * 2 * PI * EPS_0,\n")],
     "a gradient with respect to the imaginary part of a permittivity with the FDTD solver", "training with FDTD never learns the imaginary part",
     FD + '''
from nidn.fdtd_integration.init_fdtd import init_fdtd
cfg = nidn.load_default_cfg()
cfg.N_layers, cfg.PER_LAYER_THICKNESS = 1, [0.3]
cfg.FDTD_pml_thickness, cfg.FDTD_free_space_distance = 0.21, 0.43
cfg.FDTD_gridpoints_from_material_to_detector = 1
cfg.FDTD_source_type, cfg.FDTD_pulse_type, cfg.FDTD_source_position = "line", "continuous", [0.35, 0.1]
cfg.FDTD_grid_scaling = torch.tensor(10.0)
def f(x):
    g, a, b = init_fdtd(cfg, include_object=True, wavelength=1e-6, permittivity=torch.complex(x[0], x[1]).reshape(1, 1, 1))
    g.E[:, :, :, 2] = 1.0
    g.run(3, progress_bar=False)
    return (g.E ** 2).sum()
compare(f, torch.tensor([2.5, 0.4]), 0)
compare(f, torch.tensor([2.5, 0.4]), 1)
''')
seed("eps-grad-imag", "P27",
     [("nidn/training/model/model_to_eps_grid.py", "        eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)\n",
       "        eps.imag = eps.imag.data * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)\n")],
     "a gradient through the imaginary part of a regression grid", "the network's second output gets no gradient",
     '''
from nidn import model_to_eps_grid
cfg = nidn.load_default_cfg()
cfg.type, cfg.model_type = "regression", "siren"
cfg.Nx = cfg.Ny = cfg.N_layers = cfg.eps_oversampling = 1
cfg.N_freq = 1
cfg.target_frequencies = [1.0]
cfg.real_min_eps, cfg.real_max_eps, cfg.imag_min_eps, cfg.imag_max_eps = 1.0, 5.0, 0.0, 3.0
y = torch.tensor([[0.3, 0.6]], requires_grad=True)
e, _ = model_to_eps_grid(lambda x: y * 1.0, cfg)
g = torch.autograd.grad(e.imag.sum() + e.real.sum(), y)[0]
assert abs(float(g[0, 0]) - 4.0) < 1e-3 and abs(float(g[0, 1]) - 3.0) < 1e-3, g
''')
