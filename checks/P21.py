"""Transmittance and reflectance are extracted from the detector signals."""
import os, sys
import math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import nidn
from dotmap import DotMap
from nidn.fdtd_integration.calculate_transmission_reflection_coefficients import (
    calculate_transmission_reflection_coefficients as coefficients,
)


def cfg(w):
    """configuration and wavelength with a window of w samples"""
    return DotMap({"FDTD_min_gridpoints_per_unit_magnitude": 10}), (w + 0.5) / 30.0 * 1e-6


def strip(S, s):
    for i, v in enumerate(s):
        if S.branch(S.or_(v > 1e-8, v < -1e-8)):
            return s[i:]
    return s


def steady(S, s, w, thr):
    """the part after the last window whose range differs notably from the next"""
    s = strip(S, s)
    n = len(s)
    if n <= 2 * w:
        return s
    m = -(-n // w)  # number of windows, the last two are one
    win = [s[i * w:(i + 1) * w] for i in range(m - 2)] + [s[(m - 2) * w:]]
    rng = [S.max(*x) - S.min(*x) for x in win]
    ch = [S.abs(a - b) for a, b in zip(rng, rng[1:])]
    big = S.max(*ch)
    if S.branch(big <= 0):
        return s[len(ch) * w:]
    for k in reversed(range(len(ch))):
        if not S.branch(ch[k] < thr * big):
            return s[(k + 1) * w:]


def power(S, s):
    pk = [i for i in range(1, len(s) - 1) if S.branch(S.and_(s[i] > s[i - 1], s[i] > s[i + 1]))]
    if len(pk) > 1:
        u = s[pk[0]:pk[-1]]
        return sum((v * v for v in u), 0.0) / len(u)
    mx = S.max(*s)
    return mx * mx / 2


def expect(S, T, R):
    """normalisation of slightly too large sums"""
    t = T + R
    S.assume(S.or_(t < 1.05 - 1e-9, t > 1.05 + 1e-9))
    S.assume(S.or_(t <= 1, t > 1 + 1e-9))
    norm = S.and_(t > 1, t < 1.05)
    return S.ite(norm, T / t, T), S.ite(norm, R / t, R)


def ref(S, t0, t1, r0, r1, w):
    T = power(S, steady(S, t1, w, 0.1)) / power(S, steady(S, t0, w, 0.5))
    d = [a - b for a, b in zip(r1, r0)]
    R = power(S, steady(S, d, w, 0.1)) / power(S, steady(S, r0, w, 0.5))
    return expect(S, T, R)


def check(S, t0, t1, r0, r1, w, want=None, tol=1e-7):
    S.ieee_nan()
    c, wl = cfg(w)
    for base, nm in ((t0, "t"), (r0, "r")):
        S.assume(sum((v * v for v in base), 0.0) / len(base) > 1e-12)
    T, R = coefficients([torch.tensor(list(t0)), torch.tensor(list(t1))], [torch.tensor(list(r0)), torch.tensor(list(r1))], wl, c)
    wT, wR = want if want is not None else ref(S, t0, t1, r0, r1, w)
    S.prove_close(T, wT, "transmittance", tol=tol, rel=tol)
    S.prove_close(R, wR, "reflectance", tol=tol, rel=tol)


FREE = [0.0, 0.4, 0.9, -1.0, 1.0, -1.1, 1.0, -1.0, 1.05, -1.0]
MAT = [0.0, 0.1, 0.5, -0.6, 0.7, -0.65, 0.6, -0.7, 0.62, -0.6]


def h_formula(S, which, n, w):
    """one of the four signals is symbolic"""
    sig = {"t0": FREE[:n], "t1": MAT[:n], "r0": FREE[-n:], "r1": [a + 0.3 * b for a, b in zip(FREE[-n:], MAT[:n])]}
    x = [S.real("x%d" % i, -4.0, 4.0) for i in range(n)]
    if which in ("t0", "r0"):
        # the ratio needs a reference with power
        S.assume(S.or_(*[S.abs(v) > 0.5 for v in x]))
        S.assume(x[-1] > 0.25)
    if which == "r0":
        sig["r1"] = [a + b for a, b in zip(x, MAT)]
    if which == "r1":
        x = [a + b for a, b in zip(x, sig["r0"])]
    sig[which] = x
    check(S, sig["t0"], sig["t1"], sig["r0"], sig["r1"], w)


def h_scale(S, shape, w):
    """material signals proportional to the free space ones"""
    if shape == "steady":
        base = [0.0, 0.0] + [math.sin(0.9 * i) for i in range(14)]
    elif shape == "ramp":
        base = [0.0] + [min(1.0, 0.3 * i) * math.sin(1.3 * i) for i in range(1, 16)]
    else:
        base = [0.0, 0.0, 0.0, 2e-3, 0.5, 1.0]
    a, b, m = S.real("a", 0.001, 2.0), S.real("b", 0.001, 2.0), S.real("m", 0.01, 100.0)
    t0 = [m * v for v in base]
    check(S, t0, [a * v for v in t0], t0, [v * (1 + b) for v in t0], w)


def h_periodic(S, n, w, p=3):
    """in the steady state the ratio of powers is the squared ratio of amplitudes"""
    u = [S.real("u%d" % i, -2.0, 2.0) for i in range(p)]
    S.assume(S.abs(u[0]) > 0.1)
    S.assume(S.max(*u) > 0.1)
    a, b = S.choose("ab", [(0.5, 0.25), (0.6, 0.8), (0.9, 0.46), (0.01, 0.99), (1.25, 0.75)])
    t0 = [0.0] + [u[i % p] for i in range(n - 1)]
    T, R = a * a, b * b
    check(S, t0, [a * v for v in t0], t0, [v + b * v for v in t0], w, want=expect(S, T, R))


def h_same(S, n, w, p=3):
    """without an object everything is transmitted and nothing reflected"""
    u = [S.real("u%d" % i, -2.0, 2.0) for i in range(p)]
    S.assume(S.abs(u[0]) > 0.1)
    S.assume(S.max(*u) > 0.1)
    t0 = [0.0] + [u[i % p] for i in range(n - 1)]
    check(S, t0, list(t0), t0, list(t0), w, want=(1.0, 0.0))


def h_windows(S, which, m):
    """oscillation whose amplitude changes from window to window"""
    w = 2
    r = [S.real("r%d" % i, 0.05, 4.0) for i in range(m)]
    x = [0.0] + [v for a in r for v in (a, -a)]
    n = len(x)
    long = lambda s: [s[min(i, 2 + i % 2)] if i < 4 else s[4 + i % 4] for i in range(n)]
    sig = {"t0": long(FREE), "t1": long(MAT), "r0": long(FREE)}
    sig["r1"] = [a + b for a, b in zip(sig["r0"], sig["t1"])]
    sig[which] = [a + b for a, b in zip(x, sig["r0"])] if which == "r1" else x
    if which == "r0":
        sig["r1"] = [a + b for a, b in zip(x, sig["t1"])]
    check(S, sig["t0"], sig["t1"], sig["r0"], sig["r1"], w)


def h_zero(S, n):
    c, wl = cfg(2)
    side = S.choose("side", ["t", "r"])
    x = [S.real("x%d" % i, -1e-3, 1e-3) for i in range(n)]
    p = sum((v * v for v in x), 0.0) / n
    S.assume(S.or_(p < 0.999e-15, p > 1.001e-15))
    ok = FREE[:n]
    t0, r0 = (x, ok) if side == "t" else (ok, x)
    S.assume(p < 0.999e-15)
    f = lambda: coefficients([torch.tensor(list(t0)), torch.tensor(MAT[:n])], [torch.tensor(list(r0)), torch.tensor(MAT[:n])], wl, c)
    S.prove(S.raises(f, ValueError) is not None, "a free space signal that is zero is refused")


def instances(tier):
    q = tier == "quick"
    out = []
    sizes = [(3, 2), (4, 2), (5, 2)] if q else [(3, 2), (4, 2), (5, 2), (6, 2), (7, 3), (6, 4)]
    for which in ("t0", "t1", "r0", "r1"):
        for n, w in sizes:
            out.append(dict(name="formula_%s_%d_%d" % (which, n, w), fn=h_formula, args=dict(which=which, n=n, w=w), cost=10 * n,
                            bounds="any %s signal of %d samples, window of %d samples, other signals fixed" % (which, n, w)))
        for m in (4,) if q else (3, 4, 5):
            out.append(dict(name="windows_%s_%d" % (which, m), fn=h_windows, args=dict(which=which, m=m), cost=40,
                            bounds="any amplitudes of %s in %d windows, other signals fixed" % (which, m)))
    for sh in ("steady", "ramp", "onset"):
        for w in (2, 3) if q else (2, 3, 4, 7):
            out.append(dict(name="scale_%s_%d" % (sh, w), fn=h_scale, args=dict(shape=sh, w=w), cost=20, bounds="any amplitudes; window of %d samples" % w))
    for n, w in ((7, 3), (10, 3)) if q else ((7, 3), (10, 3), (13, 3), (16, 6)):
        out.append(dict(name="periodic_%d_%d" % (n, w), fn=h_periodic, args=dict(n=n, w=w), cost=20, bounds="any signal of period 3 samples, %d samples" % n))
        out.append(dict(name="same_%d_%d" % (n, w), fn=h_same, args=dict(n=n, w=w), cost=20, bounds="any signal of period 3 samples, %d samples" % n))
    out.append(dict(name="zero", fn=h_zero, args=dict(n=4), bounds="4 samples"))
    return out
