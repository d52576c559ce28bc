"""Likelihood regularisation loss."""
import torch
from nidn.training.losses.likelihood_regularization_loss import _likelihood_regularization_loss_fn as reg


def power(S, x, L):
    return {1: lambda: x, 2: lambda: x * x, 0.5: lambda: S.sqrt(x), 3: lambda: x * x * x}[L]()


def h(S, shape, L, use_max=False):
    p = S.reals("p", shape, 0.0, 1.0)
    t = torch.tensor(p)
    v = S.elems(reg(t, L, use_max) if use_max else reg(t, L))[0]
    fl = S.elems(p)
    n = len(fl)
    if use_max:
        M = shape[-1]
        want = 0.0
        for k in range(0, n, M):
            want = want + 1.0 - S.max(*fl[k:k + M])
        want = want / (n // M)
    else:
        want = 0.0
        for x in fl:
            want = want + S.min(power(S, 1 - x, L), power(S, x, L))
        want = want / n
        hot = S.and_(*[S.or_(x <= 0, x >= 1) for x in fl])
        S.prove(S.implies(hot, v <= 1e-9), "decided likelihoods have zero loss")
        if n <= 2 or L == 1:
            S.prove_le(v, float(0.5 ** L), "the loss is largest for undecided likelihoods", tol=1e-9)
            und = S.or_(*[S.and_(x >= 0.1, x <= 0.9) for x in fl])
            S.prove(S.implies(und, v > 1e-6), "undecided likelihoods are penalised")
    S.prove_close(v, want, "the loss is the mean distance to a decided choice", tol=1e-9)
    S.prove(v >= -1e-12, "the loss is not negative")
    S.observe("v", [v])


def instances(tier):
    out = []
    shapes = [(1, 1, 1, 2), (1, 2, 1, 2), (2, 1, 1, 3)]
    if tier != "quick":
        shapes += [(2, 2, 1, 3), (1, 1, 3, 4)]
    for sh in shapes:
        for L in (1, 2, 0.5, 3):
            out.append(dict(name="reg_%s_L%s" % ("x".join(map(str, sh)), L), fn=h, args=dict(shape=sh, L=L),
                            bounds="likelihoods of shape %s in [0,1], exponent %s" % (sh, L), cost=sh[0] * sh[1] * sh[2] * sh[3]))
        out.append(dict(name="max_%s" % "x".join(map(str, sh)), fn=h, args=dict(shape=sh, L=1, use_max=True),
                        bounds="likelihoods of shape %s in [0,1]" % (sh,)))
    return out
