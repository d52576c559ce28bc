"""Spectrum loss."""
import torch
from nidn.training.losses.spectrum_loss import _spectrum_loss_fn


def spectra(S, F, hi):
    R = [S.real("R%d" % i, 0.0, hi) for i in range(F)]
    T = [S.real("T%d" % i, 0.0, hi) for i in range(F)]
    tR = [S.real("tR%d" % i, 0.0, 1.0) for i in range(F)]
    tT = [S.real("tT%d" % i, 0.0, 1.0) for i in range(F)]
    return R, T, tR, tT


def ten(xs):
    return [torch.tensor(x) for x in xs]


def power(S, x, L):
    if L == 1:
        return x
    if L == 2:
        return x * x
    if L == 0.5:
        return S.sqrt(x)
    raise ValueError


def h_formula(S, F, L, absorb):
    R, T, tR, tT = spectra(S, F, 1.5)
    loss, ren = _spectrum_loss_fn(ten(R), ten(T), tR, tT, [0.5 + i for i in range(F)], L, absorb)
    over = [r + t for r, t in zip(R, T)]
    want = 0.0
    anyover = False
    for i in range(F):
        o = S.branch(over[i] > 1.0)
        anyover = anyover or o
        s = over[i] if o else 1.0
        r, t = R[i] / s, T[i] / s
        want = want + power(S, S.abs(r - tR[i]), L) + power(S, S.abs(t - tT[i]), L)
        if absorb:
            want = want + power(S, S.abs((1 - t - r) - (1 - tT[i] - tR[i])), L)
    want = want / ((3 if absorb else 2) * F)
    lv = S.elems(loss)[0]
    S.prove_close(lv, want, "loss is the mean deviation per quantity and frequency, unphysical points rescaled to R+T=1", tol=1e-9)
    S.prove(lv >= 0, "the loss is not negative")
    if not S.branch(S.or_(*[S.and_(o - 1.0 < 1e-12, 1.0 - o < 1e-12) for o in over])):
        S.prove_eq(bool(ren), anyover, "renormalisation is reported exactly when R+T exceeds one somewhere")
    S.observe("loss", [lv])


def h_match(S, F, L, absorb):
    """zero exactly for a perfect match of physical spectra"""
    R, T, tR, tT = spectra(S, F, 1.0)
    for r, t in zip(R, T):
        S.assume(r + t <= 1.0)
    loss, ren = _spectrum_loss_fn(ten(R), ten(T), tR, tT, [1.0] * F, L, absorb)
    lv = S.elems(loss)[0]
    dev = [S.abs(a - b) for a, b in zip(R + T, tR + tT)]
    S.prove(S.implies(S.and_(*[d <= 0 for d in dev]), lv <= 1e-12), "a perfect match has zero loss")
    big = S.or_(*[d >= 0.01 for d in dev])
    S.prove(S.implies(big, lv > 1e-7), "any mismatch has positive loss")


def h_mono(S, L, absorb):
    """moving one produced value away from its target raises the loss"""
    R, T, tR, tT = spectra(S, 2, 1.0)
    d = S.real("d", 0.0, 1.0)
    which = S.intval("which", 0, 1)
    for r, t in zip(R, T):
        S.assume(r + t <= 1.0)
    R2 = list(R)
    R2[which] = R[which] + d
    S.assume(R[which] >= tR[which])
    S.assume(R2[which] + T[which] <= 1.0)
    f = [1.0, 2.0]
    a, _ = _spectrum_loss_fn(ten(R), ten(T), tR, tT, f, L, False)
    b, _ = _spectrum_loss_fn(ten(R2), ten(T), tR, tT, f, L, False)
    S.prove_le(S.elems(a)[0], S.elems(b)[0], "a larger deviation does not lower the loss", tol=1e-12)


def instances(tier):
    out = []
    q = tier == "quick"
    for F in ((1, 2, 3) if q else (1, 2, 3, 4, 5)):
        for L in (1, 2, 0.5):
            for ab in (False, True):
                if q and F == 3 and L == 0.5:
                    continue
                out.append(dict(name="formula_F%d_L%s%s" % (F, L, "_A" if ab else ""), fn=h_formula, args=dict(F=F, L=L, absorb=ab), cost=F * 3,
                                bounds="%d frequencies, exponent %s, produced R,T in [0,1.5], targets in [0,1]" % (F, L)))
                if L != 0.5:
                    out.append(dict(name="match_F%d_L%s%s" % (F, L, "_A" if ab else ""), fn=h_match, args=dict(F=F, L=L, absorb=ab), cost=F,
                                    bounds="%d frequencies, exponent %s, R+T<=1" % (F, L)))
    for L in (1, 2):
        out.append(dict(name="mono_L%d" % L, fn=h_mono, args=dict(L=L, absorb=False), bounds="2 frequencies, exponent %d" % L))
    return out
