seed("field-backward-interior", "P25",
     [("nidn/trcwa/trcwa.py", "    bi = torch_dot(pS21, ai) + torch_dot(pS22, bN)\n", "    bi = torch_dot(pS21, ai)\n")],
     "light from below and a field inside an inner layer", "the upward wave that comes from below is missing inside the stack, so fields jump at the interfaces",
     '''
from nidn.trcwa.trcwa import TRCWA
t = TRCWA(3, [0.1, 0.0], [0.0, 0.1], 0.7, 0.0, 0.0, verbose=0)
for d, e in ((1.0, 1.0), (0.3, 4.0), (1.0, 1.0)):
    t.Add_LayerUniform(d, torch.tensor(e))
t.Init_Setup()
t.MakeExcitationPlanewave(1, 0, 0, 0, order=0, direction="backward")
a = t.Solve_FieldFourier(1, 0.3)[0]
b = t.Solve_FieldFourier(2, 0.0)[0]
for i in range(2):
    for k in range(2):
        assert torch.allclose(a[i][k], b[i][k], atol=1e-6), (a, b)
''')
seed("volume-ez-sign", "P26",
     [("nidn/trcwa/trcwa.py", "        Faz2 = -1.0 / self.omega * torch_dot(epinv, torch.diag(self.kx))\n", "        Faz2 = 1.0 / self.omega * torch_dot(epinv, torch.diag(self.kx))\n")],
     "an absorbing layer patterned in both directions, whose field has a z component, at oblique incidence", "the absorbed power no longer agrees with what is neither reflected nor transmitted",
     '''
from nidn.trcwa.trcwa import TRCWA
from nidn.trcwa.utils.fft_funs import get_conv
t = TRCWA(6, [1.0, 0.0], [0.0, 1.0], 0.7, 0.5, 0.3, verbose=0)
t.Add_LayerUniform(1.0, torch.tensor(1.0)); t.Add_LayerGrid(0.4, 6, 6); t.Add_LayerUniform(1.0, torch.tensor(1.0))
t.Init_Setup()
t.MakeExcitationPlanewave(0.6, 0.0, 0.8, 1.0, order=0)
g = torch.ones((6, 6, 1), dtype=torch.complex128)
g[:3, 1:4, 0] = 6.0 + 0.5j
t.GridLayer_geteps(g)
R, T = t.RT_Solve(normalize=1)
M = get_conv(1 / 36.0, torch.imag(g[:, :, 0]).to(torch.complex128), t.G)
lost = torch.real(t.omega * t.Volume_integral(1, M, M, M, normalize=1))
assert abs(float(R + T + lost) - 1) < 1e-4, (R, T, lost)
''')
seed("aniso-z", "P26",
     [("nidn/trcwa/utils/fft_funs.py", "        epsinv = torch.inverse(epsz_fft)\n", "        epsinv = torch.inverse(epsx_fft)\n")],
     "an anisotropic layer under oblique p-polarised light", "the permittivity along z is ignored",
     '''
from nidn.trcwa.trcwa import TRCWA
import math
th = 0.6
t = TRCWA(3, [0.5, 0.0], [0.0, 0.5], 0.7, th, 0.0, verbose=0)
t.Add_LayerUniform(1.0, torch.tensor(1.0)); t.Add_LayerGrid(0.4, 4, 4); t.Add_LayerUniform(1.0, torch.tensor(1.0))
t.Init_Setup()
t.MakeExcitationPlanewave(1, 0, 0, 0, order=0)
o = torch.ones(16, dtype=torch.complex128)
t.GridLayer_geteps([o * 4.0, o * 4.0, o * 2.0])
R, T = t.RT_Solve(normalize=1)
w = math.sqrt(4.0 * (1 - math.sin(th) ** 2 / 2.0))
y = 4.0 * math.cos(th) / w
want = 1 / (1 + 0.25 * (y - 1 / y) ** 2 * math.sin(2 * math.pi * 0.7 * w * 0.4) ** 2)
assert abs(float(T) - want) < 1e-3, (T, want)
''')
