"""G03: DLGA trains on matched pairs of the given data, leaves it alone, and uses its best checkpoint."""
import contextlib, copy, os
import numpy as np
from vkit import workload
from vkit import sga_ref as R
from vkit import dlga_ref as D

PROPERTY = "G03"
RULE = "distinct (data layout, sampling, training length) fits whose training pairs, checkpoints and side effects were observed"
REQUIRE = {"fit": 20, "training-pair": 500, "checkpoint-judged": 4, "replay": 6, "network-identified": 30}
ASSUME = ["training batches are observed where they enter torch's mean squared error"]


class Watch:
    """records what enters the network/loss during training and what is checkpointed"""

    def __init__(self):
        self.inputs, self.targets, self.saved = [], [], {}

    @contextlib.contextmanager
    def on(self):
        import torch
        import torch.nn.functional as F
        om, osv, of = F.mse_loss, torch.save, torch.nn.Module.__call__
        w = self

        def mse(a, b, *k, **kw):
            if len(w.targets) < 3:
                w.targets.append(b.detach().cpu().numpy().copy())
                w.loss_input = a.detach().cpu().numpy().copy()
            return om(a, b, *k, **kw)

        def save(obj, f, *k, **kw):
            if isinstance(f, str) and isinstance(obj, dict):
                w.saved[os.path.basename(f)] = {a: v.detach().clone() for a, v in obj.items() if hasattr(v, "detach")}
            return osv(obj, f, *k, **kw)
        F.mse_loss, torch.save = mse, save
        try:
            yield self
        finally:
            F.mse_loss, torch.save = om, osv

    def attach(self, model):
        w = self

        def pre(mod, args):
            if len(w.inputs) < 3:
                w.inputs.append(args[0].detach().cpu().numpy().copy())
        return model.Net.register_forward_pre_hook(pre)


@contextlib.contextmanager
def step_weights(snaps, keep):
    """weights after each optimizer step k with keep(k)"""
    import torch
    from torch.optim.optimizer import register_optimizer_step_post_hook as hook
    n = [0]

    def post(opt, *_):
        n[0] += 1
        if keep(n[0]):
            snaps[n[0]] = [p.detach().clone() for g in opt.param_groups for p in g["params"]]
    h = hook(post)
    try:
        yield
    finally:
        h.remove()


def pairs_ok(m, X, y, pts, vals, tag):
    tab = {}
    for p, v in zip(np.asarray(X, dtype=np.float32), np.asarray(y, dtype=np.float32).reshape(-1)):
        tab.setdefault(p.tobytes(), []).append(v)
    bad = 0
    for p, v in zip(np.asarray(pts, dtype=np.float32), np.asarray(vals, dtype=np.float32).reshape(-1)):
        m.saw("training-pair")
        bad += v not in tab.get(p.tobytes(), [])
    m.check(bad == 0, "training-pairs-from-data", f"{tag}: {bad} of {len(pts)} training pairs are not in the data")


def arrays(ds):
    out = {}
    for n in ("x", "t", "usol"):
        v = getattr(ds, n, None)
        if isinstance(v, np.ndarray):
            out[n] = v
    for n in ("fields_data", "coords_1d"):
        for k, v in (getattr(ds, n, None) or {}).items():
            if isinstance(v, np.ndarray):
                out[f"{n}.{k}"] = v
    return out


@workload(quick=40, thorough=400, timeout=200)
def data_use(m, rng, i):
    D.seed_all(int(rng.integers(1 << 30)))
    model, ops = D.make_model(rng, max_iter=int(rng.integers(2, 12)), pop=6, gens=2)
    ds, x, t, u, kind = D.make_dataset(rng)
    XX, TT = np.meshgrid(x, t, indexing="ij")
    X, y = np.column_stack([XX.ravel(), TT.ravel()]), u.reshape(-1, 1)
    w = Watch()
    h = w.attach(model)
    mode = ["mesh", "none", "count", "ratio", "fit", "fit1d"][rng.integers(6)]
    before = {k: v.copy() for k, v in arrays(ds).items()}
    want = len(X)
    with w.on(), R.quiet():
        if mode == "fit" or mode == "fit1d":
            perm = rng.permutation(len(X))
            Xi, yi = X[perm].copy(), y[perm].copy()
            if mode == "fit1d":
                yi = yi[:, 0].copy()
            X0, y0 = Xi.copy(), yi.copy()
            model.fit(Xi, yi)
            m.check(np.array_equal(Xi, X0) and np.array_equal(yi, y0), "inputs-unchanged", f"{mode}: arrays passed to fit were modified")
        elif mode == "mesh":
            model.fit_dataset(ds, sample=5, Xy_from="mesh")
        elif mode == "none":
            model.fit_dataset(ds)
        elif mode == "count":
            want = int(rng.integers(10, len(X) + 1))
            model.fit_dataset(ds, sample=want)
        else:
            r = float(rng.choice([0.5, 1.0, 0.3]))
            want = int(len(X) * r)
            model.fit_dataset(ds, sample=r)
    h.remove()
    m.saw("fit")
    after = arrays(ds)
    for k, v in before.items():
        m.check(np.array_equal(v, after[k]), "dataset-unchanged", f"{kind}/{mode}: {k} was modified by the fit")
    if w.inputs and w.targets and len(w.inputs[0]) == len(w.targets[0]):
        m.saw("training-observed")
        pts, vals = w.inputs[0], w.targets[0]
        pairs_ok(m, X, y, pts, vals, f"{kind}/{mode}")
        m.check(w.loss_input.shape == vals.shape, "loss-shapes-match", f"{w.loss_input.shape} vs {vals.shape}")
        m.check(abs(len(pts) - 0.8 * want) <= 1, "training-share", f"{kind}/{mode}: {len(pts)} of {want}")
        if len(w.inputs) > 1:
            tr = {p.tobytes() for p in pts}
            va = [p.tobytes() for p in w.inputs[1]]
            if mode != "count" and mode != "ratio":
                m.check(not any(v in tr for v in va), "validation-disjoint", f"{kind}/{mode}")
            m.check(len(tr) == len(pts), "training-without-repeats", f"{kind}/{mode}")
    m.check(len(model.train_loss_history) == model.max_iter and len(model.val_loss_history) == model.max_iter, "one-loss-per-step",
            f"{len(model.train_loss_history)} {len(model.val_loss_history)} of {model.max_iter}")
    m.check(np.asarray(model.metadata["u"]).shape[0] == want, "features-cover-data", f"{kind}/{mode}: {np.asarray(model.metadata['u']).shape} of {want}")
    m.distinct((kind, mode, u.shape, model.max_iter))


@workload(quick=12, thorough=64, timeout=300)
def checkpoints(m, rng, i):
    """long enough to checkpoint; tiny noisy data so that the last checkpoint is often not the best"""
    import torch
    D.seed_all(int(rng.integers(1 << 30)))
    iters = int(rng.choice([499, 500, 700, 1000, 1500, 2000]))
    model, ops = D.make_model(rng, max_iter=iters, pop=6, gens=1)
    X = rng.uniform(-1, 1, (int(rng.integers(12, 30)), 2))
    y = np.sin(2 * X[:, :1] + X[:, 1:]) + rng.normal(size=(len(X), 1)) * float(rng.choice([0.0, 0.5]))
    w = Watch()
    h = w.attach(model)
    with w.on(), R.quiet():
        model.fit(X.copy(), y.copy() if i % 3 else y[:, 0].copy())
    h.remove()
    m.saw("fit")
    val = model.val_loss_history
    m.check(len(val) == iters, "one-loss-per-step", f"{len(val)} of {iters}")
    # validation history is the validation error of the recorded inputs
    if len(w.inputs) > 1:
        tab = {p.astype(np.float32).tobytes(): float(v[0]) for p, v in zip(X, y)}
        pv = w.inputs[1].astype(np.float32)
        if all(p.tobytes() in tab for p in pv):
            target = np.array([tab[p.tobytes()] for p in pv])
            pred = D.net_value(model.Net, pv)
            mse = float(np.mean((pred - target) ** 2))
            near = val[min(model.best_epoch, iters) - 1]
            m.saw("validation-recomputed")
            m.check(abs(mse - near) <= 0.2 * near + 5e-3, "validation-loss-is-validation-error", f"{mse} vs recorded {near}")
    marks = list(range(500, iters + 1, 500))
    if marks:
        best = min(marks, key=lambda e: val[e - 1])
        m.check(model.best_epoch == best, "best-checkpoint-chosen", f"chose {model.best_epoch}, validation {[(e, val[e-1]) for e in marks]}")
        m.saw("checkpoint-judged")
        sd = w.saved.get(f"Net_{best}.pkl")
        if sd is not None:
            m.check(all(torch.equal(v, model.Net.state_dict()[k]) for k, v in sd.items()), "best-checkpoint-used",
                    f"network in use is not checkpoint {best}")
            m.saw("checkpoint-compared")
    else:
        m.check(model.best_epoch == iters, "last-weights-used", f"{model.best_epoch}")
    var = float(np.var(y))
    if iters >= 700 and len(X) > 14:
        m.check(min(model.train_loss_history) < 0.7 * var + 1e-3, "training-reduces-error", f"{min(model.train_loss_history)} of {var}")
    m.distinct(("ckpt", iters, len(X), model.best_epoch))


@workload(quick=24, thorough=240, timeout=300)
def same_folder(m, rng, i):
    """several fits in one working folder, of one model or of several, with equal or different lengths: after each,
    the network in use is the one its own training chose"""
    import torch
    D.seed_all(int(rng.integers(1 << 30)))
    length = int(rng.choice([6, 40, 500])) if i % 6 else 500
    reuse = bool(rng.integers(2))
    model = None
    for k in range(int(rng.integers(2, 4))):
        if model is None or not reuse:
            iters = length if rng.random() < 0.75 else int(rng.integers(3, 60))
            model, ops = D.make_model(rng, max_iter=iters, pop=6, gens=1)
        iters = model.max_iter
        X = rng.uniform(-1, 1, (int(rng.integers(12, 30)), 2))
        y = rng.uniform(-2, 2) + np.sin(rng.uniform(1, 3) * X[:, :1] + X[:, 1:])
        seen, snaps = len(model.val_loss_history), {}
        with step_weights(snaps, lambda j: j % 500 == 0 or j == iters), R.quiet():
            model.fit(X.copy(), y.copy())
        m.saw("fit")
        val = model.val_loss_history[-iters:]
        m.check(len(model.val_loss_history) - seen == iters or len(model.val_loss_history) == iters, "one-loss-per-step", f"{len(model.val_loss_history)}")
        marks = [j for j in snaps if j % 500 == 0]
        best = min(marks, key=lambda e: val[e - 1]) if marks else iters
        label = f"fit {k} of {'one model' if reuse else 'several models'}, {iters} steps"
        m.check(model.best_epoch == best, "best-checkpoint-chosen", f"{label}: {model.best_epoch} for {best}")
        used = [p.detach() for p in model.Net.parameters()]
        m.saw("network-identified")
        m.check(all(torch.equal(a, b) for a, b in zip(snaps[best], used)), "network-of-another-fit" if k else "best-checkpoint-used",
                f"{label}: the network in use is not this training's after step {best}")
        m.close(np.asarray(model.metadata["u"]).reshape(-1), D.net_value(model.Net, X.astype(np.float32)), "features-of-this-network",
                rtol=1e-4, atol=1e-5, msg=label)
        m.distinct(("folder", reuse, k, iters, len(X)))


def replay_once(m, rng):
    s = int(rng.integers(1 << 30))
    gs = int(rng.integers(1 << 30))
    out, models = [], []
    for k in range(2):
        g = np.random.default_rng(gs)
        if k:
            D.seed_all(7)
            o, _ = D.make_model(rng, max_iter=5, pop=6, gens=2)
            dso, *_ = D.make_dataset(rng)
            with R.quiet():
                o.fit_dataset(dso)
            np.random.rand(int(rng.integers(1, 50)))
        D.seed_all(s)
        model, ops = D.make_model(g, ops=list(g.permutation(["u", "u_x", "u_xx", "u_xxx"])[:g.integers(1, 5)]), pop=10, gens=4)
        ds, x, t, u, kind = D.make_dataset(g)
        with R.quiet():
            r = model.fit_dataset(ds)
        m.check(r is model, "fit-returns-self", "")
        if k == 0:
            first_pred = model.predict(ds.mesh()).copy()
        out.append((model.eq_latex, str(model.Chrom[0]), model.name[0], float(model.Fitness[0])))
        models.append(model)
    m.saw("replay")
    m.close(models[0].train_loss_history, models[1].train_loss_history, "same-inputs-same-training", rtol=1e-5, atol=1e-9)
    m.close(models[0].predict(ds.mesh()), models[1].predict(ds.mesh()), "same-inputs-same-network", rtol=1e-4, atol=1e-6)
    m.close(models[0].predict(ds.mesh()), first_pred, "earlier-model-unaffected")
    m.distinct(("replay", out[0][0]))
    return out


@workload(quick=10, thorough=100, timeout=200)
def replays(m, rng, i):
    """same seeds, same data => same equation, whatever was fitted before in this process and directory"""
    for _ in range(3):      # rounding may flip a tie once; a dependence on history does it every time
        out = replay_once(m, rng)
        if out[0] == out[1]:
            break
        m.saw("rounding-flip")
    m.check(out[0] == out[1], "same-inputs-same-result", f"{out[0][:4]} vs {out[1][:4]}")
