"""Plots show the run's own data: pyplot is replaced by a recorder, the run's
spectra, permittivities and logs are symbolic."""
import importlib
import os
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import numpy as np
from dotmap import DotMap
import matlib as M
import nidn

MODS = sorted(f[:-3] for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(nidn.__file__)), "plots"))
              if f.endswith(".py") and f != "__init__.py")
MODS = [importlib.import_module("nidn.plots." + m) for m in MODS]


def func(name):
    return getattr(importlib.import_module("nidn.plots." + name), name)


class Sink:
    """takes every call of a drawing library that carries no data"""
    def __init__(self):
        self.rec = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n.startswith("set_"):
            return lambda *a, **k: self.rec.__setitem__(n[4:], a[0] if a else None)
        if n not in self.__dict__.setdefault("subs", {}):
            self.subs[n] = Sink()
        return self.subs[n]

    def __call__(self, *a, **k):
        return Sink()

    def __iter__(self):
        return iter(())


class Axes(Sink):
    def __init__(self, root):
        super().__init__()
        self.root, self.series, self.points, self.texts, self.names, self.bars = root, [], [], [], None, []

    def plot(self, *a, **k):
        a = list(a)
        fmt = a.pop() if a and isinstance(a[-1], str) else k.get("linestyle", k.get("ls", "-"))
        x, y = (None, a[0]) if len(a) == 1 else (a[0], a[1])
        self.series.append(dict(x=x, y=y, fmt=fmt, label=k.get("label")))
        return [Sink()]

    semilogy = semilogx = loglog = plot

    def scatter(self, x, y, z=None, s=None, c=None, **k):
        self.points.append(dict(x=x, y=y, z=z if z is not None else k.get("zs"), c=c, k=k))
        p = Sink()
        p.axes = self
        return p

    def legend(self, *a, **k):
        lab = k.get("labels")
        if lab is None and a:
            lab = a[-1]
        self.names = list(lab) if lab is not None else "labels"

    def text(self, x, y, s, *a, **k):
        self.texts.append(s)

    annotate = lambda self, s, *a, **k: self.texts.append(s)

    def colorbar(self, ticks=None):
        b = Sink()
        b.rec["ticks"] = ticks
        self.bars.append(b)
        return b

    def xlabel(self, s, *a, **k):
        self.rec["xlabel"] = s

    def ylabel(self, s, *a, **k):
        self.rec["ylabel"] = s

    def title(self, s, *a, **k):
        self.rec["title"] = s

    def named(self):
        """series by the name the legend gives them"""
        out = {}
        for i, s in enumerate(self.series):
            n = s["label"]
            if isinstance(self.names, list):
                n = self.names[i] if i < len(self.names) else None
            out.setdefault(n, []).append(s)
        return out


class Fig(Sink):
    def __init__(self, root):
        super().__init__()
        self.root = root

    def add_subplot(self, *a, **k):
        return self.root.new()

    add_axes = add_subplot

    def gca(self):
        return self.root.axes[-1] if self.root.axes else self.root.new()

    def colorbar(self, p, *a, ticks=None, **k):
        return p.axes.colorbar(ticks)

    def savefig(self, path, *a, **k):
        self.root.saved.append(str(path))

    def show(self, *a, **k):
        self.root.shown += 1


class Plt(Fig):
    """stands for matplotlib.pyplot"""
    def __init__(self):
        super().__init__(self)
        self.axes, self.saved, self.shown = [], [], 0

    def new(self):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def figure(self, *a, **k):
        self.axes_before = len(self.axes)
        f = Fig(self)
        f.fresh = True
        self._fresh = True
        return f

    def add_subplot(self, *a, **k):
        self._fresh = False
        return self.new()

    subplot = axes_ = add_subplot

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        a = [[self.new() for _ in range(ncols)] for _ in range(nrows)]
        f = Fig(self)
        if nrows == ncols == 1:
            return f, a[0][0]
        if nrows == 1 or ncols == 1:
            return f, [x for r in a for x in r]
        return f, np.array(a, dtype=object)

    def gca(self):
        if self.__dict__.get("_fresh") or not self.axes:
            self._fresh = False
            return self.new()
        return self.axes[-1]

    for _n in ("plot", "semilogy", "semilogx", "loglog", "scatter", "legend", "text", "annotate", "xlabel", "ylabel", "title"):
        exec("def %s(self, *a, **k):\n    return self.gca().%s(*a, **k)" % (_n, _n))
    del _n

    def panel(self, word):
        """axes whose vertical axis is named so"""
        return [a for a in self.axes if word.lower() in str(a.rec.get("ylabel", "")).lower()]


def recorder(S):
    r = Plt()
    for m in MODS:
        for n in ("plt", "pyplot"):
            if n in m.__dict__:
                S.patch(m, n, r)
    return r


def seq(S, v):
    """flat list of the plotted values"""
    if hasattr(v, "detach") or hasattr(v, "reshape"):
        return S.elems(torch.as_tensor(v)) if hasattr(v, "detach") else list(np.asarray(v).reshape(-1))
    if isinstance(v, (list, tuple)):
        return [q for x in v for q in seq(S, x)]
    return [v]


def same(S, got, want, msg, tol=1e-5):
    got = seq(S, got)
    S.prove_eq(len(got) == len(want), True, msg + " (number of values)")
    S.prove_close(got, list(want), msg, tol=tol)


def config(S, dims, freqs=True):
    cfg = nidn.load_default_cfg()
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = dims
    cfg.type, cfg.model_type = "regression", "voxel"
    cfg.add_noise = cfg.avoid_zero_eps = False
    cfg.real_min_eps, cfg.real_max_eps, cfg.imag_min_eps, cfg.imag_max_eps = -20.0, 20.0, 0.0, 10.0
    cfg.PER_LAYER_THICKNESS = [0.1]
    cfg.eps_oversampling = 1
    f = [S.real("f%d" % i, 0.1, 5.0) for i in range(dims[3])] if freqs == "all" else [0.5 + 0.3 * i for i in range(dims[3])]
    if freqs:
        cfg.target_frequencies = np.array(f)
    return cfg, f


def grid(S, dims, cfg, lossless=False):
    """a model whose permittivities are the inputs"""
    v = {}

    def level(p):
        if len(p) == 4:
            n = "e_%d_%d_%d_%d" % p
            v[p] = S.real(n, -19.0, 19.0) + 0j if lossless else S.cplx(n, -19.0, 19.0, 0.1, 9.0)
            return v[p]
        return [level(p + (i,)) for i in range(dims[len(p)])]
    vals = level(())
    t = torch.tensor(vals)
    cfg.model = lambda *a: t
    return v, t


def where(S, r, saved):
    if saved is None:
        S.prove(r.shown == 1 and not r.saved, "without a folder the plot is shown")
    else:
        S.prove(r.saved == [saved] and not r.shown, "the plot is saved in the given folder")


def h_spectra(S, nf, given, folder, filename=None):
    r = recorder(S)
    dims = (1, 1, 1, nf)
    cfg, f = config(S, dims, "all")
    R, T = [S.real("R%d" % i, 0.0, 1.0) for i in range(nf)], [S.real("T%d" % i, 0.0, 1.0) for i in range(nf)]
    tR, tT = [S.real("tR%d" % i, 0.0, 1.0) for i in range(nf)], [S.real("tT%d" % i, 0.0, 1.0) for i in range(nf)]
    cfg.target_reflectance_spectrum, cfg.target_transmittance_spectrum = list(tR), list(tT)
    v, t = grid(S, dims, cfg)
    got = []

    def spectrum(eps, c, *a):
        got.append(S.elems(eps))
        return list(R), list(T)
    for m in MODS:
        if "compute_spectrum" in m.__dict__:
            S.patch(m, "compute_spectrum", spectrum)
    k = {}
    if given:
        k = dict(prod_R_spectrum=list(R), prod_T_spectrum=list(T))
    if given == "tensor":
        k = dict(prod_R_spectrum=torch.tensor(R), prod_T_spectrum=torch.tensor(T))
    if filename:
        k["filename"] = filename
    func("plot_spectra")(cfg, save_path=folder, **k)
    where(S, r, None if folder is None else folder + "/" + (filename or "spectra_comparison") + ".png")
    if not given:
        S.prove(len(got) == 1, "the spectrum is computed once")
        S.prove_close(got[0], [v[(0, 0, 0, i)] for i in range(nf)], "the spectrum plotted is that of the model's permittivities", tol=1e-4)
    for word, prod, targ in (("Reflectance", R, tR), ("Transmittance", T, tT)):
        p = r.panel(word)
        S.prove(len(p) == 1, "one panel shows the " + word)
        s = p[0].named()
        for n, y in (("Target " + word, targ), ("Produced " + word, prod)):
            S.prove(len(s.get(n, ())) == 1, "the legend names one curve " + n)
            same(S, s[n][0]["y"], y, n + " is what its name says")
            same(S, s[n][0]["x"], [1.0 / q for q in f], "plotted over the wavelength in micrometres")
        err = 0.0
        for a, b in zip(prod, targ):
            err = err + S.abs(a - b)
        nums = [S.number(q) for q in p[0].texts if "L1" in q]
        S.prove(len(nums) == 1, "the L1 error is stated")
        S.prove_close(nums, [err / nf], "the stated error is the mean absolute deviation", tol=6e-5)


def h_spectrum(S, nf, absorb, freqs):
    r = recorder(S)
    cfg, f = config(S, (1, 1, 1, nf), "all" if freqs else False)
    if not freqs:
        if "target_frequencies" in cfg:
            del cfg["target_frequencies"]
        cfg.physical_wavelength_range, cfg.freq_distribution = [0.5e-6, 2e-6], "linear"
        f = [0.5 + (2.0 - 0.5) * i / (nf - 1) for i in range(nf)]
    R, T = [S.real("R%d" % i, 0.0, 1.0) for i in range(nf)], [S.real("T%d" % i, 0.0, 1.0) for i in range(nf)]
    func("plot_spectrum")(cfg, list(R), list(T), show_absorption=absorb)
    where(S, r, None)
    want = [("Reflectance", R), ("Transmittance", T)]
    if absorb:
        want.append(("Absorptance", [1.0 - a - b for a, b in zip(R, T)]))
    S.prove(bool(r.panel("Absorptance")) == absorb, "the absorptance is shown when asked for")
    for word, y in want:
        p = r.panel(word)
        S.prove(len(p) == 1 and len(p[0].series) == 1, "one panel with one curve shows the " + word)
        same(S, p[0].series[0]["y"], y, "the " + word + " curve is the " + word)
        same(S, p[0].series[0]["x"], [1.0 / q for q in f], "plotted over the wavelength in micrometres")


def h_losses(S, n):
    r = recorder(S)
    cfg, f = config(S, (1, 1, 1, 1))
    res = DotMap(_dynamic=False)
    logs = {}
    for k, name in (("L1_errs", "L1"), ("loss_log", "Loss"), ("weighted_average_log", "Weighted Average Loss")):
        logs[name] = [S.real("%s%d" % (k, i), 1e-6, 10.0) for i in range(n)]
        res[k] = list(logs[name])
    cfg.results = res
    func("plot_losses")(cfg, save_path="scratch")
    where(S, r, "scratch/losses.png")
    S.prove(len(r.axes) == 1, "one panel")
    s = r.axes[0].named()
    for name, y in logs.items():
        S.prove(len(s.get(name, ())) == 1, "the legend names one curve " + name)
        x = s[name][0]["x"]
        if x is not None:
            S.prove([int(q) for q in seq(S, x)] == list(range(n)), "plotted over the evaluations")
        same(S, s[name][0]["y"], y, "the curve " + name + " is its log", tol=1e-9)


def voxels(S, ax, dims):
    """voxel -> plotted value, by the labelled position of its marker"""
    Nx, Ny, L = dims[:3]
    S.prove(len(ax.points) == 1, "one cloud of markers")
    p = ax.points[0]
    lin = lambda n: [-1.0] if n == 1 else [-1.0 + 2.0 * i / (n - 1) for i in range(n)]
    ticks, names = [float(q) for q in seq(S, ax.rec["zticks"])], list(ax.rec["zticklabels"])
    S.prove(names == ["L%d" % (i + 1) for i in range(L)] and len(ticks) == L, "every layer is labelled")
    X, Y, Z, C = ([float(q) for q in seq(S, p["x"])], [float(q) for q in seq(S, p["y"])],
                  [float(q) for q in seq(S, p["z"])], seq(S, p["c"]))
    S.prove(len(X) == len(Y) == len(Z) == len(C) == Nx * Ny * L, "one marker per voxel")
    out = {}
    near = lambda v, t: [i for i, q in enumerate(t) if abs(q - v) < 1e-4]
    for x, y, z, c in zip(X, Y, Z, C):
        i, j, l = near(x, lin(Nx)), near(y, lin(Ny)), near(z, ticks)
        S.prove(len(i) == len(j) == len(l) == 1, "markers sit on the grid, at the height of their layer")
        out[(i[0], j[0], l[0])] = c
    S.prove(len(out) == Nx * Ny * L, "every voxel has its marker")
    return out


def h_grid(S, name, dims):
    r = recorder(S)
    cfg, f = config(S, dims)
    v, t = grid(S, dims, cfg)
    if name == "plot_epsilon_grid":
        func(name)(t, cfg)
    else:
        func(name)(cfg)
    where(S, r, None)
    S.prove(len(r.axes) == 1, "one panel")
    out = voxels(S, r.axes[0], dims)
    for q in out:
        e = [v[q + (i,)] for i in range(dims[3])]
        c = out[q]
        if name == "plot_epsilon_grid":
            w = 0.0
            for z in e:
                w = w + S.re(z) * S.re(z) + S.im(z) * S.im(z)
        else:
            a, b = 0.0, 0.0
            for z in e:
                a, b = a + S.re(z) / len(e), b + S.im(z) / len(e)
            w = a * a + b * b
        S.prove(c >= 0, "the size of a permittivity is not negative")
        S.prove_close([c * c], [w], "the marker's colour is the size of its voxel's permittivity", tol=2e-3)


def h_per_freq(S, dims, idx):
    r = recorder(S)
    cfg, f = config(S, dims)
    v, t = grid(S, dims, cfg)
    if idx is None:
        e = S.raises(lambda: func("plot_model_grid_per_freq")(cfg), IndexError, ValueError)
        S.prove(e is None, "any number of frequencies can be plotted (%s)" % e)
        idx = list(range(min(4, dims[3])))
    else:
        func("plot_model_grid_per_freq")(cfg, freq_idx=list(idx))
    where(S, r, None)
    S.prove(len(r.axes) == 2 * len(idx), "two panels per frequency")
    seen = set()
    for ax in r.axes:
        S.prove(len(ax.bars) == 1, "each panel has its colour bar")
        part = str(ax.bars[0].rec.get("label"))
        imag = "Imag" in part
        part = S.im if imag else S.re
        n = S.number(str(ax.rec.get("title")))
        k = [i for i in idx if abs(float(n) - 1.0 / f[i]) < 5.1e-3]
        S.prove(len(k) == 1, "the title states the wavelength of a requested frequency")
        seen.add((k[0], imag))
        out = voxels(S, ax, dims)
        for q in out:
            S.prove_close([out[q]], [part(v[q + (k[0],)])], "the marker's colour is its voxel's permittivity at that wavelength", tol=1e-4)
        kw = ax.points[0]["k"]
        lo, hi = kw.get("vmin"), kw.get("vmax")
        if lo is not None and hi is not None:
            lo, hi = seq(S, lo)[0], seq(S, hi)[0]
            for q in out:
                S.prove(S.and_(lo <= out[q] + 1e-4, out[q] - 1e-4 <= hi), "the colour range contains every value")
    S.prove(len(seen) == 2 * len(idx), "both parts of every requested frequency are shown")


def library(S, keep, lossless=False):
    tabs, eps = {}, {}
    for i, n in enumerate(M.NAMES):
        k = keep.index(n) if n in keep else 0
        tabs[n] = ([1.0], [1.0 + 0.8 * k], [0.0 if lossless else 0.2 * (k % 2)]) if n in keep else ([1.0], [900.0 + i], [0.0])
        z = complex(tabs[n][1][0], tabs[n][2][0]) ** 2
        eps[n] = z
    M.use_tables(S, tabs)
    return eps


def dist(S, v, q, nf, z):
    d = 0.0
    for i in range(nf):
        d = d + S.abs(v[q + (i,)] - z)
    return d / nf


def h_material(S, dims, n, error):
    keep = M.NAMES[2:2 + n]
    eps = library(S, keep)
    r = recorder(S)
    cfg, f = config(S, dims)
    v, t = grid(S, dims, cfg)
    func("plot_material_grid")(cfg, plot_error=error, to_skip=[m for m in M.NAMES if m not in keep])
    where(S, r, None)
    S.prove(len(r.axes) == (2 if error else 1), "materials and, when asked for, their error")
    ax = r.axes[0]
    out = voxels(S, ax, dims)
    bar = ax.bars[0]
    tick, lab = [float(x) for x in seq(S, bar.rec["ticks"])], list(bar.rec["ticklabels"])
    S.prove(len(tick) == len(lab) == n and set(lab) == set(keep), "the colour bar names every material of the library")
    errs = voxels(S, r.axes[1], dims) if error else None
    for q in out:
        D = {m: dist(S, v, q, dims[3], eps[m]) for m in keep}
        ok = [S.and_(out[q] == tick[i], *[D[lab[i]] <= D[o] + 1e-3 for o in keep]) for i in range(n)]
        S.prove(S.or_(*ok), "the marker's colour is that of the closest material")
        if error:
            for m in keep:
                S.prove_le(errs[q], D[m], "the plotted error is not above any material's distance", tol=1e-3)
            S.prove(S.or_(*[S.and_(errs[q] - D[m] <= 1e-3, D[m] - errs[q] <= 1e-3) for m in keep]),
                    "the plotted error is the distance of a material")


def h_point(S, dims, compare, stored):
    keep = M.NAMES[2:5]
    eps = library(S, keep, compare is None)
    if compare == "one":
        compare = keep[1]
    elif compare == "two":
        compare = [keep[2], keep[0]]
    r = recorder(S)
    cfg, f = config(S, dims)
    v, t = grid(S, dims, cfg, compare is None)
    if stored:
        cfg.eps = t
        cfg.model = None
    func("plot_eps_per_point")(cfg, compare_to_material=compare)
    where(S, r, None)
    pts = [(x, y, l) for x in range(dims[0]) for y in range(dims[1]) for l in range(dims[2])]
    chosen = None
    for word in ("Real", "Imag"):
        part = S.re if word == "Real" else S.im
        p = r.panel(word)
        S.prove(len(p) == 1, "one panel shows the %s part" % word)
        p = p[0]
        legend = p.names or [a.names for a in r.axes if a.names][0]
        S.prove(len(legend) == len(pts), "one name per point")
        for i, n in enumerate(legend):
            l, x, y = [int(q) for q in re.findall(r"\d+", n)]
            s = p.series[i]
            same(S, s["y"], [part(v[(x, y, l, k)]) for k in range(dims[3])], "a curve is its point's permittivity", tol=1e-4)
            same(S, s["x"], [1.0 / q for q in f], "plotted over the wavelength in micrometres")
        S.prove(sorted(tuple(int(q) for q in re.findall(r"\d+", n)) for n in legend) == sorted((l, x, y) for x, y, l in pts),
                "every point has its curve")
        names = [q.strip() for q in p.texts]
        mats = p.series[len(pts):]
        S.prove(len(mats) == len(names), "every material curve is named")
        for s, n in zip(mats, names):
            z = eps[n].real if word == "Real" else eps[n].imag
            same(S, s["y"], [z] * dims[3], "a material's curve is its permittivity", tol=1e-3)
            same(S, s["x"], [1.0 / q for q in f], "plotted over the wavelength in micrometres")
        if compare is not None:
            S.prove(names == ([compare] if isinstance(compare, str) else compare), "the materials asked for are shown")
        else:
            for q in pts:
                S.prove(S.or_(*[S.and_(*[dist(S, v, q, dims[3], eps[n]) <= dist(S, v, q, dims[3], eps[o]) + 1e-3
                                         for o in keep]) for n in names]), "the closest material of every point is shown")
            for n in names:
                S.prove(S.or_(*[S.and_(*[dist(S, v, q, dims[3], eps[n]) <= dist(S, v, q, dims[3], eps[o]) + 1e-3
                                         for o in keep]) for q in pts]), "a material shown is the closest of some point")


def h_all(S, nf):
    """everything can be drawn, whatever the number of frequencies"""
    keep = M.NAMES[2:4]
    library(S, keep, True)
    r = recorder(S)
    dims = (1, 1, 1, nf)
    cfg, f = config(S, dims)
    v, t = grid(S, dims, cfg, True)
    cfg.target_reflectance_spectrum = cfg.target_transmittance_spectrum = [0.5] * nf
    cfg.results = DotMap(L1_errs=[1.0], loss_log=[1.0], weighted_average_log=[1.0])
    for m in MODS:
        if "compute_spectrum" in m.__dict__:
            S.patch(m, "compute_spectrum", lambda e, c: ([0.4] * nf, [0.3] * nf))
    d = tempfile.mkdtemp(prefix="nidn_plots_")
    try:
        sub = os.path.join(d, "a", "b")
        e = S.raises(lambda: func("save_all_plots")(cfg, sub), IndexError, ValueError, TypeError, KeyError)
        S.prove(e is None, "all plots can be made (%s)" % (e,))
        S.prove(os.path.isdir(sub), "the folder is created")
        names = sorted(os.path.basename(q) for q in r.saved)
        S.prove(all(os.path.dirname(q) == sub for q in r.saved), "all plots go to the folder")
        S.prove(len(names) == 6 and len(set(names)) == 6, "six plots with names of their own")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def instances(tier):
    q = tier == "quick"
    out = []

    def add(label, fn, bounds, **a):
        out.append(dict(name=label, fn=fn, args=a, bounds=bounds))
    for nf in (1, 3) if q else (1, 2, 5, 8):
        for given in ("list", "tensor", None):
            add("spectra_%d_%s" % (nf, given), h_spectra, "%d frequencies, all spectra and frequencies" % nf, nf=nf, given=given,
                folder=None if given == "list" else "scratch", filename="mine" if given == "tensor" else None)
        for ab in (False, True):
            add("spectrum_%d_%d" % (nf, ab), h_spectrum, "%d frequencies, all spectra" % nf, nf=nf, absorb=ab, freqs=True)
    add("spectrum_nofreq", h_spectrum, "4 frequencies of a fixed range", nf=4, absorb=True, freqs=False)
    for n in (1, 4) if q else (1, 4, 20):
        add("losses_%d" % n, h_losses, "%d evaluations" % n, n=n)
    ds = [(1, 1, 1, 1), (2, 1, 3, 2), (1, 3, 2, 2)] + ([] if q else [(2, 2, 2, 4), (3, 2, 2, 5)])
    for d in ds:
        for n in ("plot_epsilon_grid", "plot_model_grid"):
            add("%s_%s" % (n, "x".join(map(str, d))), h_grid, "grid %s" % (d,), name=n, dims=d)
    for d, idx in [((1, 1, 1, 1), None), ((2, 1, 2, 2), None), ((1, 2, 1, 3), None), ((1, 1, 2, 4), None), ((1, 1, 1, 6), None),
                   ((1, 2, 2, 3), (2,)), ((2, 1, 1, 4), (3, 1))] + ([] if q else [((2, 2, 2, 4), None), ((2, 2, 1, 6), (5, 0, 3))]):
        add("perfreq_%s_%s" % ("x".join(map(str, d)), "def" if idx is None else "-".join(map(str, idx))), h_per_freq, "grid %s" % (d,),
            dims=d, idx=idx)
    for d, n in [((1, 1, 1, 1), 2), ((2, 1, 1, 1), 2), ((1, 1, 2, 2), 3)] + ([] if q else [((1, 2, 1, 2), 3), ((1, 1, 1, 3), 5)]):
        for er in (False, True):
            add("material_%s_%d_%d" % ("x".join(map(str, d)), n, er), h_material, "grid %s, %d materials" % (d, n), dims=d, n=n, error=er)
    for d in [(1, 1, 1, 1), (2, 1, 2, 2)] + ([] if q else [(2, 2, 1, 2)]):
        for c in ("one", "two", None):
            if c is None and d[0] * d[1] > 2:
                continue
            if c is None and d != (1, 1, 1, 1):
                d = (1, 1, 2, 1)
            add("point_%s_%s" % ("x".join(map(str, d)), c), h_point, "grid %s" % (d,), dims=d, compare=c, stored=c == "two")
    for nf in (1, 2, 5) if q else range(1, 9):
        add("all_%d" % nf, h_all, "%d frequencies" % nf, nf=nf)
    return out
