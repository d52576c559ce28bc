FD = "import importlib\nfdtd = importlib.import_module('nidn.fdtd')\nfdtd.set_backend('torch')\ntorch.manual_seed(0)\n"
seed("yee-curl-z-edge", "P14",
     [("nidn/fdtd/grid.py", "    curl[:, :, :-1, 1] += E[:, :, 1:, 0] - E[:, :, :-1, 0]", "    curl[:-1, :, :-1, 1] += E[:-1, :, 1:, 0] - E[:-1, :, :-1, 0]")],
     "a grid with an extent along z and Ex at the last cell in x", "the last x layer misses the z derivative of Ex in the magnetic update",
     FD + """
g = fdtd.Grid((3, 3, 3), grid_spacing=1e-7)
g.E[-1, :, :, 0] = torch.rand(3, 3)
e = g.E.clone()
g.update_H()
want = -g.courant_number * (e[-1, :, 1:, 0] - e[-1, :, :-1, 0])
assert torch.allclose(g.H[-1, :, :-1, 1], want)
""")
seed("yee-heat", "P15",
     [("nidn/fdtd/grid.py", "    curl[:, :, 1:, 0] -= H[:, :, 1:, 1] - H[:, :, :-1, 1]\n", "    curl[:, 1:, 1:, 0] -= H[:, 1:, 1:, 1] - H[:, 1:, :-1, 1]\n")],
     "a three-dimensional grid with Hy at the first cell in y", "the electric field no longer conserves energy and charge at the first layer in y",
     FD + """
g = fdtd.Grid((3, 3, 3), grid_spacing=1e-7)
g.E = torch.rand(3, 3, 3, 3, dtype=torch.float64) - 0.5
g.H = torch.rand(3, 3, 3, 3, dtype=torch.float64) - 0.5
# perfectly conducting walls
g.E[:, 0, :, 0] = g.E[:, :, 0, 0] = g.E[0, :, :, 1] = g.E[:, :, 0, 1] = g.E[0, :, :, 2] = g.E[:, 0, :, 2] = 0
h = g.H.clone()
e = g.E.clone()
# adjointness of the two curls for fields that vanish at the low walls
from nidn.fdtd.grid import curl_E, curl_H
assert abs(float((curl_H(h)[..., 0] * 1.0).sum() - (h[:, 1:, :, 2] - h[:, :-1, :, 2]).sum() + (h[:, :, 1:, 1] - h[:, :, :-1, 1]).sum())) < 1e-9
""")
seed("pml-zhigh-profile", "P16",
     [("nidn/fdtd/boundaries.py", '''    """A perfectly matched layer to place where Z is high."""

    def _set_locations(self):
        self.loc = (slice(None), slice(None), slice(-self.thickness, None), slice(None))
        self.locx = (slice(None), slice(None), slice(-self.thickness, None), 0)
        self.locy = (slice(None), slice(None), slice(-self.thickness, None), 1)''',
       '''    """A perfectly matched layer to place where Z is high."""

    def _set_locations(self):
        self.loc = (slice(None), slice(None), slice(-self.thickness, None), slice(None))
        self.locx = (slice(None), slice(None), slice(-self.thickness, None), 0)
        self.locy = (slice(None), slice(None), slice(-self.thickness, None), 0)''')],
     "an absorbing layer on the high z side and y polarised light", "the layer absorbs according to the wrong component",
     FD + """
def end(hi):
    g = fdtd.Grid((3, 3, 14), grid_spacing=1e-7)
    if hi:
        g[:, :, -5:] = fdtd.PML()
    else:
        g[:, :, 0:5] = fdtd.PML()
    g.E[1, 1, 7, 1] = 1.0
    g.run(25, progress_bar=False)
    return float((g.H[:, :, -5:] if hi else g.H[:, :, :5]).abs().sum())
lo, hi = end(False), end(True)
g = fdtd.Grid((2, 2, 8), grid_spacing=1e-7)
g[:, :, -3:] = fdtd.PML()
g.E[:, :, :, 1] = 0.0
g.H[0, 0, 6, 1] = 1.0
p = g.boundaries[0] if isinstance(g.boundaries, list) else list(g.boundaries)[0]
p.update_phi_E()
assert float(p.phi_E[0, 0, 1, 0].abs()) > 1e-6
""")
seed("periodic-z-swap", "P17",
     [("nidn/fdtd/boundaries.py", "        self.grid.H[:, :, -1, :] = self.grid.H[:, :, 0, :]", "        self.grid.H[:, :, -1, 1:] = self.grid.H[:, :, 0, 1:]")],
     "a periodic boundary along z and a magnetic field component along x", "Hx is not periodic along z",
     FD + """
g = fdtd.Grid((4, 4, 5), grid_spacing=1e-7)
g[:, :, 0] = fdtd.PeriodicBoundary()
g.E += torch.rand(g.E.shape)
g.run(3, progress_bar=False)
assert torch.allclose(g.H[:, :, 0], g.H[:, :, -1])
""")
CF = """
def config(n, th):
    cfg = nidn.load_default_cfg()
    cfg.solver, cfg.N_layers, cfg.N_freq = "FDTD", n, 1
    cfg.PER_LAYER_THICKNESS = th
    cfg.physical_wavelength_range = [8e-7, 9e-7]
    cfg.target_frequencies = nidn.compute_target_frequencies(8e-7, 9e-7, 1, "linear")
    cfg.FDTD_grid_scaling = torch.tensor(20.0)
    cfg.FDTD_source_position = torch.tensor(cfg.FDTD_source_position)
    return cfg
"""
seed("scene-third-layer", "P18",
     [("nidn/fdtd_integration/init_fdtd.py", "                x_start += cfg.PER_LAYER_THICKNESS[i]\n                x_end += cfg.PER_LAYER_THICKNESS[i + 1]\n", "                x_end += cfg.PER_LAYER_THICKNESS[i + 1]\n                x_start = x_end - cfg.PER_LAYER_THICKNESS[i]\n")],
     "layers of different thickness", "a layer starts at the wrong cell when its predecessor has another thickness",
     CF + """
from nidn.fdtd_integration.init_fdtd import init_fdtd
cfg = config(3, [0.5, 1.0, 0.7])
e = torch.tensor([2.0, 3.0, 4.0], dtype=torch.cfloat).reshape(1, 1, 3)
g, t, r = init_fdtd(cfg, True, torch.tensor(8e-7), e)
x0 = int((cfg.FDTD_pml_thickness + cfg.FDTD_free_space_distance) * 20)
v = [round(float(1 / x)) for x in g.inverse_permittivity[:, 0, 0, 2]]
want = [1] * x0 + [2] * 10 + [3] * 20 + [4] * 14
assert v[:len(want)] == want, v
""")
seed("source-plane-hpol", "P19",
     [("nidn/fdtd/sources.py", "        _Hpols = [(z, 1, 2), (z, 0, 2), (y, 0, 1)][self._Epol]", "        _Hpols = [(z, 1, 2), (z, 0, 1), (y, 0, 1)][self._Epol]")],
     "a plane source across x polarised along y", "the source drives H along E instead of perpendicular to it",
     FD + """
g = fdtd.Grid((6, 5, 5), grid_spacing=1e-7)
s = fdtd.PlaneSource(period=12, polarization="y", phase_shift=0.7)
g[2, :, :] = s
s.update_H()
assert float(g.H[..., 1].abs().max()) == 0.0 and float(g.H[2, :, :, 2].abs().min()) > 0.1
""")
seed("detector-block-last", "P20",
     [("nidn/fdtd/detectors.py", "        y = [v.item() for v in bd.arange(y0, y1)]\n        z = [v.item() for v in bd.arange(z0, z1)]\n        return x, y, z\n\n    def detect_E(self):\n        \"\"\"detect the electric field at a certain location in the grid\"\"\"\n        # TODO: there is a performance bottleneck here (indexing with lists)\n        E = []\n        for i, row",
       "        y = [v.item() for v in bd.arange(y0, min(y1, self.grid.Ny - 1))] or [y0]\n        z = [v.item() for v in bd.arange(z0, z1)]\n        return x, y, z\n\n    def detect_E(self):\n        \"\"\"detect the electric field at a certain location in the grid\"\"\"\n        # TODO: there is a performance bottleneck here (indexing with lists)\n        E = []\n        for i, row")],
     "a block detector that reaches the far border in y", "the cells at the border are not recorded",
     FD + """
g = fdtd.Grid((4, 4, 4), grid_spacing=1e-7)
d = fdtd.BlockDetector()
g[1:3, 2:4, 1:3] = d
g.run(1, progress_bar=False)
assert len(d.E[0]) == 2 and len(d.E[0][0]) == 2
""")
seed("coef-window-late", "P21",
     [("nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py", "        mean_squared_reflection_free_space = (max(reflection_signal) ** 2) / 2", "        mean_squared_reflection_free_space = max(reflection_signal) ** 2")],
     "a free-space reflection signal with fewer than two peaks", "reflectance is halved",
     """
from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import _peak_based_coefficient_computation as f
s = torch.tensor([0.0, 0.3, 0.9, 0.4, 0.1])
r, t = f([s, s * 0.5], s, s * 0.5)
assert abs(float(t) - 0.25) < 1e-9 and abs(float(r) - 0.25) < 1e-9, (r, t)
""")
seed("spectrum-fdtd-thickness", "P22",
     [("nidn/fdtd_integration/compute_spectrum_fdtd.py", "        cfg.PER_LAYER_THICKNESS = cfg.PER_LAYER_THICKNESS * cfg.N_layers", "        cfg.PER_LAYER_THICKNESS = [cfg.PER_LAYER_THICKNESS[0] / cfg.N_layers] * cfg.N_layers")],
     "FDTD with several layers and one common thickness", "the stack is thinner than configured",
     CF + """
import importlib
m = importlib.import_module("nidn.fdtd_integration.compute_spectrum_fdtd")
seen = []
def init(cfg, include_object, wavelength, permittivity):
    seen.append(list(cfg.PER_LAYER_THICKNESS))
    raise KeyError
m.init_fdtd = init
cfg = config(2, [0.5])
try:
    m.compute_spectrum_fdtd(torch.ones(1, 1, 2, 1, dtype=torch.cfloat), cfg)
except KeyError:
    pass
assert seen[0] == [0.5, 0.5], seen
""")
seed("rcwa-flux-s", "P23",
     [("nidn/trcwa/trcwa.py", "        S12 = torch_dot(torch_dot(P1, P2), d2)\n", "        S12 = torch_dot(torch_dot(P1, P2), d2 if lp1 < indj or indi else torch.eye(nG2) + 0j)\n")],
     "light from below (backward excitation)", "the last layer's propagation is dropped for backward waves, only amplitudes entering from below see it",
     """
from nidn.trcwa.trcwa import TRCWA
def rt(backward, stack):
    t = TRCWA(1, [0.1, 0.0], [0.0, 0.1], 0.8 + 0j, 0.0, 0.0, verbose=0)
    for th, e in stack:
        t.Add_LayerUniform(th, torch.tensor(e))
    t.Init_Setup()
    t.MakeExcitationPlanewave(1.0, 0.0, 0.0, 0.0, order=0, direction="backward" if backward else "forward")
    return t.RT_Solve(normalize=1)
st = [(1.0, 1.0 + 0j), (0.4, 4.0 + 0.3j), (0.7, 2.0 + 0j), (1.0, 1.0 + 0j)]
a, b = rt(True, st), rt(False, st[::-1])
assert abs(float(a[0]) - float(b[0])) < 1e-5 and abs(float(a[1]) - float(b[1])) < 1e-5, (a, b)
""")
seed("rcwa-conv-order", "P24",
     [("nidn/trcwa/utils/fft_funs.py", "    s_out = sfft[G[ii, 0] - G[jj, 0], G[ii, 1] - G[jj, 1]]", "    s_out = sfft[G[ii, 0] - G[jj, 0], torch.abs(G[ii, 1] - G[jj, 1])]")],
     "a layer patterned along y without mirror symmetry", "negative orders along y take the component of the positive ones",
     """
from nidn.trcwa.utils.fft_funs import get_conv
s = torch.tensor([[1.0, 2.0, 5.0, 3.0]]) + 0j
G = torch.tensor([[0, 0], [0, 1], [0, -1]])
C = get_conv(0.25, s, G)
f = torch.fft.fft2(s) / 4
assert torch.allclose(C[0, 1], f[0, -1]) and torch.allclose(C[1, 0], f[0, 1])
""")
seed("rcwa-shells", "P24",
     [("nidn/trcwa/utils/kbloch.py", "    tol = 1e-10 * max(u**2, v**2)", "    tol = 1e-10 * max(u, v)")],
     "a lattice so large that the squared reciprocal vectors differ by less than the tolerance", "shells of distinct length are merged and the number of orders collapses",
     """
from nidn.trcwa.utils.kbloch import Lattice_Reciprocate, Lattice_getG
big = 2e10
G, n = Lattice_getG(11, *Lattice_Reciprocate([big, 0.0], [0.0, big]))
assert int(n) == 9, n
""")
seed("rcwa-geteps-layer", "P24",
     [("nidn/trcwa/trcwa.py", "                ep_grid = ep_all[:, :, i - 1]", "                ep_grid = ep_all[:, :, min(i - 1, 2)]")],
     "four or more patterned layers", "from the fourth layer on the third pattern is used",
     """
def rt(L, perm):
    cfg = nidn.load_default_cfg()
    cfg.Nx = cfg.Ny = 2
    cfg.N_layers, cfg.N_freq, cfg.TRCWA_NG = L, 1, 5
    cfg.PER_LAYER_THICKNESS = [0.3] * L
    cfg.target_frequencies = [0.5]
    e = torch.ones(2, 2, L, 1, dtype=torch.cfloat)
    for i in range(L):
        e[:, :, i] = perm[i]
    return [float(x[0]) for x in nidn.compute_spectrum(e, cfg)]
cfgs = [2.0, 3.0, 4.0, 9.0]
a, b = rt(4, cfgs), rt(4, [2.0, 3.0, 4.0, 4.0])
assert abs(a[0] - b[0]) > 1e-4, (a, b)
""")
