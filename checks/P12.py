"""Training loop: best model kept, failed evaluations recovered, logs faithful.
The physics solver, the network and the optimiser step are replaced by stand-ins whose
results are inputs of the check: any sequence of spectra and failures."""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import matlib as ML
import nidn

rt = importlib.import_module("nidn.training.run_training")


class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))

    def value(self):
        return float(self.w.detach()[0].item())


class Opt:
    """every step yields new, never seen weights"""
    made = []

    def __init__(self, params, lr=1e-3, **k):
        self.params = list(params)
        self.param_groups = [{"params": self.params, "lr": lr}]
        self.n = 0
        self.log = []
        Opt.made.append(self)

    def zero_grad(self, *a, **k):
        pass

    def step(self, *a, **k):
        self.n += 1
        with torch.no_grad():
            for p in self.params:
                p.fill_(float(self.n))

    def state_dict(self):
        return {}


class Sched:
    made = []

    def __init__(self, opt, *a, **k):
        self.seen = []
        Sched.made.append(self)

    def step(self, v, *a, **k):
        self.seen.append(v)


def setup(S, K, typ, L, absorb):
    Opt.made, Sched.made = [], []
    cfg = nidn.load_default_cfg()
    cfg.N_freq, cfg.N_layers, cfg.iterations = 1, 1, K
    cfg.physical_wavelength_range = [1e-6, 2e-6]
    cfg.target_reflectance_spectrum = [0.8]
    cfg.target_transmittance_spectrum = [0.1]
    cfg.type, cfg.L, cfg.absorption_loss = typ, L, absorb
    cfg.learning_rate = 0.5
    cfg.use_regularization_loss = True
    cfg.reg_loss_weight = 0.25
    ML.use_tables(S, {n: ([1.0], [1.5 + 0.1 * i], [0.0]) for i, n in enumerate(ML.NAMES)})
    S.patch(torch.optim, "Adam", Opt)
    S.patch(torch.optim.lr_scheduler, "ReduceLROnPlateau", Sched)
    S.patch(torch.cuda, "empty_cache", lambda *a, **k: None)
    S.patch(rt, "init_network", lambda c: Net())
    return cfg


def simulate(S, K, typ, absorb, fails=True, R=None, T=None):
    cfg = setup(S, K, typ, 1.0, absorb)
    h = dict(w=[], fail=[], R=[], T=[], p=[], eps=[], lr=[])

    def grid(model, c):
        k = len(h["w"])
        h["w"].append(model.value())
        p = None
        if typ == "classification":
            p = S.real("p%d" % k, 0.0, 1.0)
            ids = torch.tensor([[[[p, 1.0 - p]]]])
        else:
            ids = None
        h["p"].append(p)
        e = ("grid", k)
        return e, ids

    def spectrum(eps, c, *a, **kw):
        k = len(h["w"]) - 1
        h["eps"].append(eps == ("grid", k))
        h["lr"].append(Opt.made[-1].param_groups[0]["lr"])
        bad = fails and S.choose("fail%d" % k, [False, True])
        h["fail"].append(bad)
        if bad:
            h["R"].append(None)
            h["T"].append(None)
            raise ValueError("Model output became NaN...")
        r = R(k) if R else S.real("R%d" % k, 0.0, 1.5)
        t = T(k) if T else S.real("T%d" % k, 0.0, 1.0)
        h["R"].append(r)
        h["T"].append(t)
        g = 0.0 * c.model.w.sum()
        return [torch.tensor(r) + g], [torch.tensor(t) + g]

    S.patch(rt, "model_to_eps_grid", grid)
    S.patch(rt, "compute_spectrum", spectrum)
    res = rt.run_training(cfg)
    return cfg, res, h


def losses(S, h, k, typ, absorb):
    """-> total loss, L1 error, renormalised"""
    r, t = h["R"][k], h["T"][k]
    s = r + t
    over = S.branch(s > 1.0)
    if over:
        r, t = r / s, t / s
    d = S.abs(r - 0.8) + S.abs(t - 0.1)
    l1 = d / 2
    loss = (d + S.abs((1 - t - r) - (1 - 0.1 - 0.8))) / 3 if absorb else l1
    if typ == "classification":
        p = h["p"][k]
        loss = loss + 0.25 * S.min(p, 1 - p)
    return loss, l1, over


def check(S, K, typ, absorb, cfg, res, h):
    S.prove_eq(len(h["w"]), K, "as many iterations as configured")
    S.prove_eq(all(h["eps"]), True, "the spectrum is computed for the grid of the current model")
    L = [None if h["fail"][k] else losses(S, h, k, typ, absorb) for k in range(K)]
    # --- logs
    ok = [k for k in range(K) if not h["fail"][k]]
    ll, l1, wa = res.results.loss_log, res.results.L1_errs, res.results.weighted_average_log
    S.prove_eq((len(ll), len(l1), len(wa)) == (len(ok),) * 3, True, "one log entry per evaluated iteration")
    for i, k in enumerate(ok):
        S.prove_close(ll[i], L[k][0], "loss log holds the loss of the iteration", tol=1e-7)
        S.prove_close(l1[i], L[k][1], "L1 log holds the mean absolute deviation", tol=1e-7)
        win = ok[max(0, i - 19):i + 1]
        t = 0.0
        for q in win:
            t = t + L[q][0]
        S.prove_close(wa[i], t / len(win), "running average covers the last twenty iterations", tol=1e-7)
    # --- learning rate halves with every failure
    lr = 0.5
    for k in range(K):
        S.prove_close(h["lr"][k], lr, "the learning rate is halved by each failure and only then", tol=1e-12)
        if h["fail"][k]:
            lr = lr * 0.5
    S.prove_close(Opt.made[-1].param_groups[0]["lr"], lr, "final learning rate", tol=1e-12)
    # --- best model
    def is_best(w, upto, msg):
        valid = [k for k in range(upto) if not h["fail"][k] and not L[k][2]]
        if not valid:
            S.prove_eq(w, h["w"][0], msg + ": initial weights while nothing valid was found")
            return
        mine = [k for k in valid if h["w"][k] == w]
        S.prove_eq(len(mine) > 0, True, msg + ": weights belong to a valid iteration")
        for k in valid:
            S.prove(S.or_(*[L[m][0] <= L[k][0] + 1e-9 for m in mine]), msg + ": no valid iteration had a lower loss")
    is_best(res.model.value(), K, "returned model")
    sd = res.best_model_state_dict
    S.prove_eq(float(sd["w"][0].item()), res.model.value(), "stored best state is the returned model")
    for k in range(K - 1):
        if h["fail"][k]:
            is_best(h["w"][k + 1], k, "model after a failed evaluation")
        else:
            S.prove(h["w"][k + 1] != h["w"][k], "weights are updated after an evaluated iteration")


def h_any(S, K, typ, absorb):
    cfg, res, h = simulate(S, K, typ, absorb)
    check(S, K, typ, absorb, cfg, res, h)


def h_long(S, K):
    """steadily improving run, longer than the averaging window"""
    step = S.real("step", 0.0001, 0.001)
    r0 = S.real("r0", 0.0, 0.5)
    cfg, res, h = simulate(S, K, "regression", False, fails=False, R=lambda k: r0 + step * k, T=lambda k: 0.1)
    check(S, K, "regression", False, cfg, res, h)


def h_existing(S):
    """a model already present in the configuration is trained further"""
    m = Net()
    cfg = setup(S, 1, "regression", 1.0, False)
    cfg.model = m
    out = rt._init_training(cfg)
    S.prove_eq(out[0].model is m, True, "an existing model is kept")


def instances(tier):
    out = []
    q = tier == "quick"
    b = "%d iterations; every sequence of failures and of R in [0,1.5], T in [0,1] at one frequency; %s%s"
    for K in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)):
        for typ in ("regression", "classification"):
            for ab in (False, True):
                if K >= 3 and q and ab != (typ == "regression"):
                    continue
                out.append(dict(name="any_%s_K%d%s" % (typ[:3], K, "_A" if ab else ""), fn=h_any, args=dict(K=K, typ=typ, absorb=ab), cost=10 ** K,
                                bounds=b % (K, typ, ", absorption in the loss" if ab else ""), opts=dict(time_limit=700 if q else 3000)))
    out.append(dict(name="long", fn=h_long, args=dict(K=23), bounds="23 steadily improving iterations", cost=20))
    out.append(dict(name="existing", fn=h_existing, bounds="-"))
    return out
