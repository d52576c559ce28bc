"""Target frequencies and unit conversions."""
import nidn
from nidn.utils import convert_units as cu
from nidn.trcwa.compute_target_frequencies import compute_target_frequencies
from nidn.trcwa.get_frequency_points import get_frequency_points

UM = 1e-6


def _range(S):
    lo = S.real("wl_min_um", 0.01, 1000.0)
    ratio = S.real("ratio", 1.001, 1000.0)
    return lo, lo * ratio


def h_linear(S, N):
    lo, hi = _range(S)
    f = compute_target_frequencies(lo * UM, hi * UM, N, "linear")
    S.prove_eq(len(f), N, "number of target frequencies")
    S.observe("f", f)
    fmin, fmax = 1.0 / hi, 1.0 / lo
    S.prove_close(f[0], fmin, "lowest frequency belongs to the longest wavelength", tol=1e-12, rel=1e-9)
    for i in range(N):
        want = fmin + (fmax - fmin) * (i / (N - 1)) if N > 1 else fmin
        S.prove_close(f[i], want, "linear spacing", tol=1e-12, rel=1e-9)
    for i in range(N - 1):
        S.prove(f[i] < f[i + 1], "ascending order")
    if N > 1:
        S.prove_close(f[N - 1], fmax, "highest frequency belongs to the shortest wavelength", tol=1e-12, rel=1e-9)


def h_log(S, N):
    lo, hi = _range(S)
    f = compute_target_frequencies(lo * UM, hi * UM, N, "log")
    S.prove_eq(len(f), N, "number of target frequencies")
    S.observe("f", f)
    l0, l1 = S.log10(1.0 / hi), S.log10(1.0 / lo)
    for i in range(N):
        want = l0 + (l1 - l0) * (i / (N - 1)) if N > 1 else l0
        S.prove_close(S.log10(f[i]), want, "logarithmic spacing", tol=1e-9)
    for i in range(N - 1):
        S.prove(f[i] < f[i + 1], "ascending order")


def h_points(S, N, dist):
    lo, hi = _range(S)
    cfg = nidn.load_default_cfg()
    cfg.physical_wavelength_range = [lo * UM, hi * UM]
    cfg.N_freq = N
    cfg.freq_distribution = dist
    phys, f = get_frequency_points(cfg)
    g = compute_target_frequencies(lo * UM, hi * UM, N, dist)
    S.observe("phys", [x * 1e6 for x in phys])
    S.prove_eq(len(phys), N, "one physical wavelength per frequency")
    S.prove_eq(len(f), N, "one frequency per point")
    for i in range(N):
        S.prove_close(f[i], g[i], "frequency points are the target frequencies", tol=1e-12, rel=1e-9)
        S.prove_close(phys[i] * f[i] * 1e6, 1.0, "physical wavelength is the inverse of the frequency", tol=1e-9)
        S.prove_close(cfg.target_frequencies[i], f[i], "config records the frequencies", tol=1e-12)
        S.prove_le(lo, phys[i] * 1e6, "wavelength above the lower end of the range", tol=1e-7)
        S.prove_le(phys[i] * 1e6, hi, "wavelength below the upper end of the range", tol=1e-4)


def h_units(S):
    x = S.real("x", 0.001, 1e5)
    S.observe("u", [cu.freq_to_wl(x), cu.phys_wl_to_wl(x * 1e-6), cu.wl_to_phys_wl(x) * 1e6])
    S.prove_close(cu.freq_to_wl(cu.freq_to_wl(x)), x, "frequency/wavelength conversion is an involution", tol=1e-12, rel=1e-9)
    S.prove_close(cu.freq_to_wl(x) * x, 1.0, "wavelength times frequency is one", tol=1e-9)
    S.prove_close(cu.wl_to_phys_wl(cu.phys_wl_to_wl(x)), x, "wavelength round trip", tol=1e-12, rel=1e-9)
    S.prove_close(cu.phys_wl_to_wl(cu.wl_to_phys_wl(x)), x, "wavelength round trip", tol=1e-12, rel=1e-9)
    S.prove_close(cu.phys_wl_to_wl(x), x * 1e6, "micrometre unit", tol=1e-12, rel=1e-9)
    S.prove_close(cu.wl_to_phys_wl(x) * 1e6, x, "micrometre unit", tol=1e-12, rel=1e-9)
    S.prove_close(cu.phys_freq_to_phys_wl(cu.phys_freq_to_phys_wl(x)), x, "physical frequency round trip", tol=1e-12, rel=1e-9)
    S.prove_close(cu.phys_freq_to_phys_wl(x) * x, 299792458.0, "speed of light", rel=1e-9)


def h_unknown(S):
    lo, hi = _range(S)
    d = S.choose("dist", ["cubic", "", "LINEAR", "Log", "uniform"])
    e = S.raises(lambda: compute_target_frequencies(lo * UM, hi * UM, 3, d), ValueError)
    S.prove(e is not None, "an unknown distribution is rejected")


def instances(tier):
    top = 6 if tier == "quick" else 12
    out = [dict(name="units", fn=h_units, bounds="value in [1e-3, 1e5]"),
           dict(name="unknown", fn=h_unknown, bounds="5 invalid names")]
    b = "N_freq=%d, shortest wavelength in [0.01,1000] um, longest up to 1000 times that"
    for n in list(range(1, top + 1)) + ([25, 70] if tier == "quick" else [25, 70, 150]):
        out.append(dict(name="linear%d" % n, fn=h_linear, args=dict(N=n), bounds=b % n))
        if n < 30:
            out.append(dict(name="log%d" % n, fn=h_log, args=dict(N=n), bounds=b % n))
    for n in (1, 2, 4) if tier == "quick" else range(1, 9):
        for d in ("linear", "log"):
            out.append(dict(name="points_%s%d" % (d, n), fn=h_points, args=dict(N=n, dist=d), bounds=b % n))
    return out
