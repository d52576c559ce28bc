seed("plot-point-names", "P28",
     [("nidn/plots/plot_eps_per_point.py", '''            for x in range(eps.shape[0])
            for y in range(eps.shape[1])
            for N_layer in range(eps.shape[2])
''', '''            for N_layer in range(eps.shape[2])
            for x in range(eps.shape[0])
            for y in range(eps.shape[1])
''')],
     "several layers and several pixels", "the legend names curves of other points",
     '''
import os
os.environ["MPLBACKEND"] = "Agg"
from matplotlib import pyplot as plt
cfg = nidn.load_default_cfg()
cfg.target_frequencies = np.array([0.5, 1.0])
cfg.N_freq, cfg.Nx, cfg.Ny, cfg.N_layers = 2, 2, 1, 2
e = torch.arange(8).reshape(2, 1, 2, 2) * (1.0 + 0.1j) + 2.0
cfg.eps = e
plt.show = lambda *a, **k: None
nidn.plot_eps_per_point(cfg, compare_to_material="zinc_oxide")
ax = plt.gcf().axes[0]
for t, l in zip(ax.get_legend().get_texts(), ax.get_lines()):
    import re
    n, x, y = [int(q) for q in re.findall(r"\\d+", t.get_text())]
    assert np.allclose(l.get_ydata(), e[x, y, n].real.numpy()), t.get_text()
''')
