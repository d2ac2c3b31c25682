"""D08: Discover's physics-informed mode fits the sampled observations and embeds the discovered equation."""
import copy, os, re, shutil, tempfile, warnings
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "D08"
RULE = "distinct (data set, expression or training step) cases whose rewards, losses or gradients were recomputed"
REQUIRE = {"stalled": 8, "imported": 30, "program": 300, "valid": 60, "step": 150, "embedded": 60, "pretrain": 60, "fit": 5, "parameter": 10, "meta": 30}
ASSUME = ["single precision: rewards agree to 1e-3, gradients to 1e-3 of their norm",
          "collocation points near the boundary may be left out of the regression"]


def const_params(rng, shape):
    if rng.random() < 0.5:
        return {}
    return {str(n): np.full(shape, float(rng.uniform(0.5, 3))) for n in rng.choice(["nu", "kappa", "p1"], int(rng.integers(1, 3)), replace=False)}


def problem(rng, dim=None):
    from kd.dataset import PDEDataset
    dim = dim or int(rng.choice([1, 1, 2, 3]))
    if dim == 1:
        nx, nt = (int(v) for v in rng.integers(8, 20, 2))
        x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
        G = np.meshgrid(x, t, indexing="ij")
        u = R.smooth_field(rng, G, offset=float(rng.choice([0.0, 2.0])))
        P = const_params(rng, u.shape)
        return PDEDataset(equation_name="w", x=x, t=t, usol=u, **(dict(param_fields=P) if P else {})), dim, P
    ax = ["x", "y", "z"][:dim] + ["t"]
    coords = {a: R.axis_values(rng, int(rng.integers(4, 7))) for a in ax}
    order = [ax[i] for i in rng.permutation(dim + 1)]
    G = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    u = R.smooth_field(rng, G, offset=2.0)
    P = const_params(rng, u.shape)
    return PDEDataset(equation_name="w", fields_data={"u": u}, coords_1d=coords, axis_order=order, target_field="u", lhs_axis="t",
                      **(dict(param_fields=P) if P else {})), dim, P


class Box:
    """a model whose files stay in a scratch folder"""

    def __init__(self, rng, ds, dim, epochs=4, ops=None, pre=6, batch=20, seed=None, stability=0, **pinn):
        from kd.model.kd_discover import KD_Discover_SPR
        self.tmp = tempfile.mkdtemp(prefix="d08_")
        cfg = {"pinn": {"number_layer": 2, "n_hidden": int(rng.integers(5, 9)), "pinn_epoch": epochs, "duration": 3,
                        "coef_pde": float(rng.choice([0.1, 1.0, 3.0])), "local_sample": bool(rng.random() < 0.6),
                        "activation": str(rng.choice(["tanh", "sin"])), **pinn},
               "controller": {"num_units": 8}, "training": {"stability_selection": stability, "epsilon": 0.3},
               "prior": {"length": {"min_": 3, "max_": 16, "on": True}}}
        kw = {}
        if ops and dim > 1 and rng.random() < 0.6:
            kw = dict(binary_operators=[o for o in ops if D.arity(o) == 2], unary_operators=[o for o in ops if D.arity(o) == 1])
        elif ops:
            cfg["task"] = {"function_set": ops}
        self.cfg = cfg
        self.mod = KD_Discover_SPR(n_iterations=1, n_samples_per_batch=batch, out_path=self.tmp + os.sep,
                                   seed=int(rng.integers(1 << 20)) if seed is None else seed, config_out=cfg, **kw)
        real = self.mod.make_pinn_model
        self.nets = []

        def make():
            net = real()
            net.pretrain_epoch = pre
            self.nets.append(net)
            return net
        self.mod.make_pinn_model = make
        self.opts = dict(sample_ratio=float(rng.choice([0.3, 0.6, 1.0])), colloc_num=int(rng.integers(30, 80)), random_state=int(rng.integers(1000)))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for n in self.nets:
            n.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


NUDGE = [0.0]                       # protected division adds a tiny constant: cases that feel one are not judged


class Pole(Exception):
    pass


# ------------------------------------------------------------------ reference semantics on a torch network
def torch_eval(t, u, xs, params):
    import torch
    n = D.base(t[0])

    def grad(a, x):
        return torch.autograd.grad(a, x, torch.ones_like(a), create_graph=True)[0]
    if len(t) == 1:
        if n == "u1":
            return u
        if n in params:
            return torch.full_like(u, float(np.ravel(params[n])[0]))
        return xs[int(n[1:]) - 1]
    if n in D.FD_NAMES:
        a = torch_eval(t[1], u, xs, params)
        x = xs[int(t[2][0][1:]) - 1]
        for _ in range(D.FD_NAMES[n][0]):
            a = grad(a, x)
        return a
    if n == "lap":
        a = torch_eval(t[1], u, xs, params)
        return sum(grad(grad(a, x), x) for x in xs)
    a = [torch_eval(c, u, xs, params) for c in t[1:]]
    if n == "div":
        if float(a[1].abs().min()) < 1e-6:
            raise Pole              # the solver's division is protected there
        return a[0] / (a[1] + NUDGE[0])
    if n in ("n2", "n3"):
        return a[0] ** int(n[1])
    return {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1]}[n]()


def tree_of(p):
    return D.parse([t.name for t in p.traversal])


def terms_of(tree):
    return D.split_terms(tree)


def leaves(pts, dtype=None):
    import torch
    return [torch.tensor(np.asarray(c), dtype=dtype or torch.float32).reshape(-1, 1).requires_grad_(True) for c in pts]


def field(nn, lb, ub, cols):
    import torch
    dt = nn.input_layer.weight.dtype
    X, lb, ub = torch.cat(cols, 1).to(dt), lb.to(dt), ub.to(dt)
    return nn(2 * (X - lb) / (ub - lb) - 1)


def columns(nn, lb, ub, pts, tree, params, dtype):
    """(terms, u_t) at the points, as numpy arrays"""
    import torch
    net = copy.deepcopy(nn).to(dtype)
    cols = leaves(pts, dtype)
    u = field(net, lb.to(dtype), ub.to(dtype), cols)
    ut = torch.autograd.grad(u, cols[-1], torch.ones_like(u), create_graph=True)[0]
    return [torch_eval(t, u, cols[:-1], params).detach().numpy().astype(float).ravel() for t in terms_of(tree)], ut.detach().numpy().astype(float).ravel()


def imported(m, box, ds, label):
    """the network holds the adapter's sample"""
    mod, net = box.mod, box.mod.denoise_pinn
    d = mod.data_class.get_data()
    same = lambda a, b: np.array_equal(a.detach().numpy(), np.asarray(b, dtype=np.float32))
    for a, k in ((net.x + [net.t], "X_u_train"), (net.x_f + [net.t_f], "X_f_train"), (net.x_val + [net.t_val], "X_u_val")):
        m.check(len(a) == d[k].shape[1] and all(same(c, d[k][:, i:i + 1]) for i, c in enumerate(a)), "network-points", f"{label} {k}")
    for a, k in ((net.u_train, "u_train"), (net.u_val, "u_val"), (net.lb, "lb"), (net.ub, "ub")):
        m.check(same(a, d[k]), "network-values", f"{label} {k}")
    first = net.nn.input_layer.in_features
    m.check(first == d["X_u_train"].shape[1], "network-inputs", f"{label}: {first}")
    m.saw("imported")


def meta(m, mod, params, label):
    """the regression data are the network's values and time derivative at collocation points"""
    import torch
    from kd.model.discover.program import Program
    task, net = Program.task, mod.denoise_pinn
    pts = [c.detach().numpy().ravel() for c in task.x + [task.t]]
    have = {tuple(r) for r in np.column_stack([c.detach().numpy().ravel() for c in net.x_f + [net.t_f]]).tolist()}
    rows = [tuple(r) for r in np.column_stack(pts).tolist()]
    m.check(all(r in have for r in rows) and len(rows) > 0, "regression-points", label)
    q = min(0.45, 2 * task.cut_ratio)
    A = np.array(sorted(have))
    inner = A[np.all((A > np.quantile(A, q, axis=0)) & (A < np.quantile(A, 1 - q, axis=0)), axis=1)]
    m.check({tuple(r) for r in inner.tolist()} <= set(rows), "regression-points-kept", f"{label}: {len(rows)} of {len(A)}")
    cols = leaves(pts, torch.float64)
    nn = copy.deepcopy(net.nn).double()
    u = field(nn, net.lb.double(), net.ub.double(), cols)
    ut = torch.autograd.grad(u, cols[-1], torch.ones_like(u))[0].numpy().ravel()
    u = u.detach().numpy().ravel()
    m.close(task.u[0].detach().numpy().ravel(), u, "regression-field", rtol=1e-4, atol=1e-4 * (1 + np.abs(u).max()), msg=label)
    m.close(np.ravel(task.ut), ut, "regression-target", rtol=1e-3, atol=1e-3 * (np.abs(ut).max() + 1e-9), msg=label)
    m.saw("meta")
    return pts


def judge(m, p, mod, pts, params, dim, label=""):
    import torch
    net = mod.denoise_pinn
    tree = tree_of(p)
    label = f"{label} {D.text(tree)}"
    r = float(p.r_ridge)
    m.saw("program")
    m.check(np.isfinite(r) and 0 <= r <= 1, "reward-in-range", f"{label}: {r}")
    bad = [b for b in D.unsafe_terms(tree, dim) if b != "term without u"]
    if bad:
        m.check(p.invalid and r == 0, "forbidden-equation-earns-nothing", f"{label} ({bad[0]}): {r}")
        return
    if p.invalid:
        m.check(r == 0, "invalid-means-zero", f"{label}: {r}")
        if all("u1" in D.preorder(t) for t in terms_of(tree)) and "div" not in D.text(tree):
            try:
                cols, ut = columns(net.nn, net.lb, net.ub, pts, tree, params, torch.float64)
            except (RuntimeError, Pole):
                return              # not differentiable: nothing to regress on
            if not all(np.all(np.isfinite(c)) for c in cols + [ut]):
                return
            w, A, cond = D.lstsq(cols, ut)
            if cond < 1e3 and np.all(np.isfinite(w)):
                m.check(any(abs(v) < 1e-4 or abs(v) > 5e3 for v in w), "usable-equation-is-scored", f"{label}: refused {p.error_type} {w}")
        return
    m.saw("valid")
    if any(n in params for n in D.preorder(tree)):
        m.saw("parameter")
    try:
        cols, ut = columns(net.nn, net.lb, net.ub, pts, tree, params, torch.float32)
    except Pole:
        m.saw("pole")
        return
    w = np.ravel(p.w)
    if not m.check(len(w) == len(cols), "one-coefficient-per-term", f"{label}: {w}"):
        return
    A = np.stack(cols, 1)
    if not np.all(np.isfinite(A)):
        return                      # a pole; the solver's division is protected
    try:
        exact = np.stack(columns(net.nn, net.lb, net.ub, pts, tree, params, torch.float64)[0], 1)
        NUDGE[0] = 1e-7
        moved = np.stack(columns(net.nn, net.lb, net.ub, pts, tree, params, torch.float64)[0], 1)
    except Pole:
        moved = np.inf
    finally:
        NUDGE[0] = 0.0
    if not np.all(np.abs(moved - exact) <= 1e-4 * (np.abs(exact) + np.abs(exact).max(axis=0)) + 1e-12):
        m.saw("pole")
        return
    if not np.all(np.linalg.norm(A - exact, axis=0) <= 1e-3 * np.linalg.norm(exact, axis=0)):
        m.saw("ill-conditioned")
        return                      # single precision decides the value
    fit = A @ w
    want = D.pde_reward(ut, fit, len(w))
    scale = np.max(np.abs(A) * np.abs(w)) / max(np.std(ut), 1e-30)      # cancellation between terms
    tol = 1e-3 + 1e-5 * scale
    m.check(abs(r - want) <= tol, "reward", lambda: f"{label}: {r} instead of {want}")
    best = D.pde_reward(ut, A @ np.linalg.lstsq(A, ut, rcond=None)[0], len(w))
    m.check(r >= best - tol, "coefficients-fit-best", lambda: f"{label}: {r} though {best} is possible")


OPS = ["add_t", "sub_t", "mul_t", "div_t", "diff_t", "diff2_t", "diff3_t", "n2_t", "n3_t"]


def expressions(rng, lib, dim, k):
    from kd.model.discover.program import from_str_tokens
    out = []
    for _ in range(40 * k):
        t = D.random_tree(rng, lib, dim, int(rng.integers(1, 4)))
        if len(D.preorder(t)) > 14 or rng.random() < 0.7 and [b for b in D.unsafe_terms(t, dim) if b != "term without u"]:
            continue
        out.append(from_str_tokens(",".join(D.preorder(t))))
        if len(out) >= k:
            break
    return out


@workload(quick=60, thorough=600, timeout=200)
def rewards(m, rng, i):
    """expressions scored on the network's derivatives"""
    from kd.model.discover.program import Program
    ds, dim, params = problem(rng)
    ops = OPS + (["lap_t"] if rng.random() < 0.4 else []) + (["diff4_t"] if rng.random() < 0.2 else [])
    label = f"dim {dim} {list(params)}"
    with Box(rng, ds, dim, ops=ops) as box, R.quiet():
        mod = box.mod
        mod.import_dataset(ds, **box.opts)
        imported(m, box, ds, label)
        mod.pretrain()
        for k in range(2):
            pts = meta(m, mod, params, label)
            Program.clear_cache()
            for p in expressions(rng, Program.library.names, dim, 10):
                judge(m, p, mod, pts, params, dim, label)
                m.distinct((p.str_expression, dim, tuple(params), k))
            if k == 0:          # another state of the network
                import torch
                with torch.no_grad():
                    for q in mod.denoise_pinn.nn.parameters():
                        q += 0.1 * torch.from_numpy(rng.normal(size=q.shape)).float()
                mod.reset_up(reset_controller=False)
                Program.reset_task(mod.denoise_pinn, mod.config_pinn["generation_type"])


def flat(nn, loss):
    """the loss and its gradient with respect to all weights, in the precision of nn"""
    import torch
    value = loss(nn)
    g = torch.autograd.grad(value, list(nn.parameters()), allow_unused=True)
    return float(value), torch.cat([(torch.zeros_like(q) if w is None else w).ravel() for w, q in zip(g, nn.parameters())]).detach().double().numpy()


def watch(m, net, opt, loss, label, kind):
    """before each optimiser step compare the gradient with an independent evaluation of the loss"""
    import torch
    real = opt.step
    seen = []

    def step(*a, **k):
        got = [None if q.grad is None else q.grad.detach().clone() for q in net.nn.parameters()]
        try:
            value, W = flat(copy.deepcopy(net.nn), loss)
            exact = flat(copy.deepcopy(net.nn).double(), loss)[1]
            NUDGE[0] = 1e-7
            moved = flat(copy.deepcopy(net.nn).double(), loss)[1]
            if not np.linalg.norm(moved - exact) <= 1e-4 * np.linalg.norm(exact) + 1e-8:
                raise Pole
        except Pole:
            value, W = float("nan"), np.array([np.nan])
        finally:
            NUDGE[0] = 0.0
        finite = bool(np.all(np.isfinite(W)))
        n = np.linalg.norm(W)
        if finite and n < 1e8 and np.linalg.norm(W - exact) <= 1e-3 * n + 1e-7:       # single precision is enough
            G = torch.cat([(torch.zeros_like(q) if g is None else g).ravel() for g, q in zip(got, net.nn.parameters())]).detach().numpy()
            m.check(np.linalg.norm(G - W) <= 2e-3 * n + 1e-6, f"{kind}-loss", lambda: f"{label}: gradient {np.linalg.norm(G)} instead of {n}, off by {np.linalg.norm(G - W)}")
            m.saw(kind)
        seen.append(float(value))
        r = real(*a, **k)
        m.check(all(torch.isfinite(q).all() for q in net.nn.parameters()), "network-stays-finite", label)
        return r
    opt.step = step
    return seen


def col(ts):
    return [c.detach().clone() for c in ts]


def pde_loss_of(net, data, p, params, coef, local):
    """mean squared misfit + coef * (residual at collocation points + residual at the observations)"""
    import torch
    xd, ud, xf = data
    systems = [[(t, float(w)) for t, w in zip(terms_of(tree_of(q)), np.ravel(q.w))] for q in (p if isinstance(p, list) else [p]) if not q.invalid]

    def residual(nn, pts, eqs):
        cols = [c.to(nn.input_layer.weight.dtype).clone().requires_grad_(True) for c in pts]
        u = field(nn, net.lb, net.ub, cols)
        ut = torch.autograd.grad(u, cols[-1], torch.ones_like(u), create_graph=True)[0]
        return torch.mean((ut - sum(w * torch_eval(t, u, cols[:-1], params) for t, w in eqs)) ** 2)

    def loss(nn):
        out = torch.mean((field(nn, net.lb, net.ub, xd) - ud) ** 2)
        for eqs in systems:
            out = out + coef * residual(nn, xf, eqs)
            if local:
                out = out + coef * residual(nn, xd, eqs)
        return out
    return loss


@workload(quick=60, thorough=600, timeout=200)
def training(m, rng, i):
    """the two training phases, step by step"""
    import torch
    from kd.model.discover.program import Program
    ds, dim, params = problem(rng)
    label = f"dim {dim} {list(params)}"
    with Box(rng, ds, dim, epochs=int(rng.integers(3, 6)), ops=OPS) as box, R.quiet():
        mod = box.mod
        mod.import_dataset(ds, **box.opts)
        net = mod.denoise_pinn
        d = mod.data_class.get_data()
        f32 = lambda a: torch.tensor(np.asarray(a), dtype=torch.float32)
        split = lambda A: [f32(A[:, k:k + 1]) for k in range(A.shape[1])]
        xt, ut = split(d["X_u_train"]), f32(d["u_train"])
        xv, uv = split(d["X_u_val"]), f32(d["u_val"])
        best = []

        def fitloss(nn):
            best.append((float(torch.mean((field(nn, net.lb, net.ub, xv) - uv) ** 2)), {k: v.clone() for k, v in nn.state_dict().items()}))
            return torch.mean((field(nn, net.lb, net.ub, xt) - ut) ** 2)
        steps = watch(m, net, net.optimizer_pretrain, fitloss, label, "pretrain")
        if i % 2:                      # large steps: the validation error goes up and down
            net.pretrain_epoch, net.duration = int(rng.integers(6, 25)), int(rng.integers(1, 5))
            net.optimizer_pretrain.param_groups[0]["lr"] = float(rng.choice([0.05, 0.3]))
        mod.pretrain()
        if len(xv[0]):
            # training ends early only when the validation error has not improved for that long
            vals, low, last, stop, sure = [b[0] for b in best[::3]], np.inf, 0, net.pretrain_epoch, True
            for k, v in enumerate(vals):
                sure &= abs(v - low) > 1e-4 * v if np.isfinite(low) else True
                if v < low:
                    low, last = v, k
                if k - last > net.duration:
                    stop = k + 1
                    break
            if sure:
                m.check(len(steps) == stop, "pretraining-ends-when-stalled", lambda: f"{label}: {len(steps)} steps instead of {stop} of {net.pretrain_epoch}, patience {net.duration}")
                m.saw("stalled", stop < net.pretrain_epoch)
        if best and len(xv[0]):
            k = int(np.argmin([b[0] for b in best]))
            saved = torch.load(net.pretrain_path, weights_only=True)
            v = {tuple(map(float, s.ravel()[:3])) for s in saved.values()}
            worst = [b[0] for b in best]
            copy_ = copy.deepcopy(net.nn)
            copy_.load_state_dict(saved)
            with torch.no_grad():
                got = float(torch.mean((field(copy_, net.lb, net.ub, xv) - uv) ** 2))
            m.close(got, worst[k], "best-pretrained-weights-saved", rtol=1e-4, atol=1e-9, msg=label)
        xd = [torch.cat([a, b]) for a, b in zip(xt, xv)]
        data = (xd, torch.cat([ut, uv]), split(d["X_f_train"]))
        meta(m, mod, params, label)
        Program.clear_cache()
        ps = sorted(expressions(rng, Program.library.names, dim, 8), key=lambda p: -float(p.r_ridge))
        several = [p for p in ps if not p.invalid][:3]
        ps = ps[:2] + ps[-1:]
        for k, p in enumerate(ps):
            w = list(np.ravel(p.w)) if not p.invalid else None
            coef, local = float(rng.choice([0.1, 1.0, 2.0])), bool(rng.random() < 0.5)
            seen = watch(m, net, net.optimizer, pde_loss_of(net, data, p, params, coef, local), f"{label} {p.str_expression} w {w} coef {coef} local {local}", "step")
            mod.pinn_train([p], count=k + 1, coef=coef, local_sample=local, last=bool(k == 1))
            del net.optimizer.step
            m.check(len(seen) == net.pinn_epoch, "number-of-steps", f"{label}: {len(seen)}")
            m.check(p.invalid or list(np.ravel(p.w)) == w, "equation-kept-while-embedded", f"{label} {p.str_expression}")
            if not p.invalid:
                m.saw("embedded")
                m.saw("parameter", sum(n in params for n in D.preorder(tree_of(p))))
            saved = torch.load(net.pinn_path + f"{k + 1}.ckpt", weights_only=True)
            m.check(all(torch.equal(a, b) for a, b in zip(saved.values(), net.nn.state_dict().values())), "trained-weights-saved", label)
            m.distinct((p.str_expression, dim, coef, local, tuple(params)))
            meta(m, mod, params, label)
        if len(several) > 1:           # several equations are embedded together
            coef, local = float(rng.choice([0.1, 1.0, 2.0])), bool(rng.random() < 0.7)
            what = " and ".join(f"{q.str_expression} w {list(np.ravel(q.w))}" for q in several)
            seen = watch(m, net, net.optimizer, pde_loss_of(net, data, several, params, coef, local), f"{label} {what} coef {coef} local {local}", "step")
            mod.pinn_train(several, count=len(ps) + 1, coef=coef, local_sample=local, last=False)
            del net.optimizer.step
            m.check(len(seen) == net.pinn_epoch, "number-of-steps", f"{label}: {len(seen)}")
            m.saw("embedded-together")
            meta(m, mod, params, label)


def voted(m, tested, found, label):
    """the stable choice of the last search wins most of its resampling rounds"""
    last = found[-1]["program"]
    group = list(tested)
    if len(group) < 2 or not any(q is last for q, *_ in group):
        return
    score = np.array([a * b for _, a, b in group])
    for q, a, b in group:
        m.check(len(a) == len(b) and len(a) >= 10 and np.all(a[np.isfinite(a)] >= 0) and np.all(b[np.isfinite(b)] >= 0), "stability-measures", f"{label}: {q.str_expression}")
    if not np.all(np.isfinite(score)) or len(score[0]) < 10:
        return
    m.saw("voted")
    votes = np.bincount(np.argmin(score, axis=0), minlength=len(group))
    k = [q is last for q, *_ in group].index(True)
    m.check(votes[k] == votes.max(), "stable-choice-wins-the-vote", f"{label}: {votes} chose {k}")


@workload(quick=60, thorough=400, timeout=200)
def stability(m, rng, i):
    """an equation that holds exactly is the most accurate and most stable of the candidates"""
    import torch
    from kd.model.discover.program import Program
    ds, dim, params = problem(rng)
    label = f"dim {dim} {list(params)}"
    with Box(rng, ds, dim, ops=OPS) as box, R.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        box.mod.import_dataset(ds, **box.opts)
        box.mod.pretrain()
        pts = meta(m, box.mod, params, label)
        task, net = Program.task, box.mod.denoise_pinn
        Program.clear_cache()
        good = []
        for p in expressions(rng, Program.library.names, dim, 12):
            float(p.r_ridge)
            if p.invalid:
                continue
            try:
                cols, ut = columns(net.nn, net.lb, net.ub, pts, tree_of(p), params, torch.float64)
            except (Pole, RuntimeError):
                continue
            A = np.stack(cols, 1)
            if np.all(np.isfinite(A)) and np.linalg.cond(A / np.maximum(np.linalg.norm(A, axis=0), 1e-30)) < 50 and len(A) > 12 * A.shape[1]:
                good.append((p, A))
        if len(good) < 2:
            raise Discard
        keep = task.ut
        try:
            k = int(rng.integers(len(good)))
            p, A = good[k]
            w = rng.choice([-1, 1], A.shape[1]) * rng.uniform(0.5, 2, A.shape[1]) / np.linalg.norm(A, axis=0)
            target = A @ w
            task.ut = np.asarray(target.reshape(np.shape(keep)), dtype=np.asarray(keep).dtype)
            np.random.seed(int(rng.integers(1 << 30)))
            out = []
            for q, B in [good[k]] + [g for j, g in enumerate(good) if j != k][:4]:
                size = np.abs(np.linalg.lstsq(B, target, rcond=None)[0])
                if size.min() < 1e-3 or size.max() > 1e3:
                    if not out:
                        raise Discard
                    continue            # refused for its coefficients
                a, b = q.execute_stability_test()
                fit = B @ np.linalg.lstsq(B, target, rcond=None)[0]
                out.append((q, np.ravel(a).astype(float), np.ravel(b).astype(float), float(np.mean((fit - target) ** 2))))
        finally:
            task.ut = keep
        var = float(np.mean(target ** 2))
        _, a0, b0, _ = out[0]
        m.check(np.median(a0) <= 1e-6 * var and np.median(b0) <= 1e-2, "exact-equation-is-stable", lambda: f"{label} {p.str_expression}: {np.median(a0) / var} {np.median(b0)}")
        m.saw("exact-equation")
        for q, a, b, full in out[1:]:
            m.check(np.all(a >= 0) and np.all(b >= 0), "stability-measures", f"{label}: {q.str_expression}")
            if full > 1e-3 * var:
                m.check(full * 0.1 <= np.mean(a) <= full * 3, "stability-accuracy", lambda: f"{label} {q.str_expression}: mean squared error {np.mean(a)} of resamples, {full} overall")
                m.check(np.mean(a0 * b0 <= a * b) > 0.9, "exact-equation-wins", lambda: f"{label} {p.str_expression} against {q.str_expression}")
                m.saw("rival")
        m.distinct((p.str_expression, dim, tuple(params)))


@workload(quick=16, thorough=120, timeout=300)
def fits(m, rng, i):
    """a whole run: search, embed, search again"""
    import torch
    from kd.model.discover.program import Program, from_tokens
    ds, dim, params = problem(rng)
    seed = int(rng.integers(1 << 20))
    label = f"dim {dim} {list(params)}"
    iters = int(rng.integers(1, 4))
    stability = int(rng.choice([0, 3, 4]))
    state = rng.bit_generator.state
    results = []
    for rep in range(2 if i % 3 == 0 else 1):
        rng.bit_generator.state = state
        with Box(rng, ds, dim, epochs=3, seed=seed, iter_num=iters, batch=15, stability=stability, ops=OPS[:3] + OPS[4:6] + ["n2_t"]) as box, R.quiet():
            mod = box.mod
            calls, found, embedded = [], [], []
            real = mod.pinn_train

            def pinn_train(best, count, coef=0.1, local_sample=False, last=False):
                again = None if not embedded else float(from_tokens(embedded[-1]).r_ridge)
                embedded.append(best[0].tokens.copy())
                calls.append((count, coef, local_sample, last, best[0].str_expression, float(best[0].r_ridge),
                              None if not found else float(found[-1]["r"]), again))
                return real(best, count, coef=coef, local_sample=local_sample, last=last)
            mod.pinn_train = pinn_train
            mod.import_dataset(ds, **box.opts)
            search = type(mod.searcher).search

            test, tested = Program.execute_stability_test, []

            def spy(self, *a, **k):
                tested.clear()          # only the last search's candidates are judged
                r = search(self, *a, **k)
                found.append(r)
                return r
            type(mod.searcher).search = spy
            def spy_test(self):
                a, b = test(self)
                tested.append((self, np.ravel(a).astype(float), np.ravel(b).astype(float)))
                return a, b
            Program.execute_stability_test = spy_test
            try:
                res = mod.train(n_epochs=1, verbose=False)
            finally:
                type(mod.searcher).search, Program.execute_stability_test = search, test
            if stability:
                voted(m, tested, found, label)
            m.saw("fit")
            cfg = box.cfg["pinn"]
            m.check([c[0] for c in calls] == list(range(1, iters + 1)) and len(found) == iters + 1, "rounds", f"{label}: {[c[0] for c in calls]}")
            m.check(all(c[1] == cfg["coef_pde"] and c[2] == cfg["local_sample"] for c in calls), "training-options", f"{label}: {calls}")
            m.check([c[3] for c in calls] == [False] * (iters - 1) + [True], "last-round", f"{label}: {calls}")
            for c in calls:
                m.check(c[5] >= max(v for v in c[6:] if v is not None) - 1e-9, "embeds-the-best-known-equation", f"{label}: {c}")
            m.check(res is found[-1], "result", label)
            best = mod.best_p[0] if isinstance(mod.best_p, list) else mod.best_p
            m.check(best is res["program"], "model-keeps-the-result", lambda: f"{label}: {best.str_expression} instead of {res['expression']}")
            if stability and float(res["r"]) > 0:
                m.check(any(repr(Program.cache[q[0]]) == repr(res["program"]) for q in mod.searcher.pq.iter_in_order()), "stable-choice-is-a-candidate", label)
            pts = meta(m, mod, params, label)
            p = res["program"]
            judge(m, p, mod, pts, params, dim, label)
            m.check(abs(float(res["r"]) - float(p.r_ridge)) < 1e-12, "reward-of-the-program", f"{label}: {res['r']} {p.r_ridge}")
            files = set(os.listdir(box.tmp))
            for dp, dn, fn in os.walk(box.tmp):
                files |= set(fn)
            m.check(any(f.endswith("_pretrain.ckpt") for f in files) and all(any(f.endswith(f"_pinn{k}.ckpt") for f in files) for k in range(1, iters + 1)),
                    "weights-written", f"{label}: {sorted(files)}")
            results.append((res["expression"] if "expression" in res else p.str_expression, float(res["r"]), [c[4:6] for c in calls]))
            m.distinct((label, seed, iters))
    if len(results) == 2:
        m.check(results[0][0] == results[1][0] and abs(results[0][1] - results[1][1]) < 1e-6 and [c[0] for c in results[0][2]] == [c[0] for c in results[1][2]],
                "repeatable", f"{label}: {results}")


@workload(quick=8, thorough=60, timeout=300)
def scattered(m, rng, i):
    """observations given as scattered points"""
    n = int(rng.integers(20, 80))
    lo = rng.uniform(-3, 1, 2)
    hi = lo + rng.uniform(0.5, 3, 2)
    xt = rng.uniform(lo, hi, (n, 2))
    u = (np.sin(2 * xt[:, :1]) * np.exp(-0.3 * xt[:, 1:]) + 2 + 0.01 * rng.normal(size=(n, 1)))
    keep = xt.copy(), u.copy()
    xt.flags.writeable = u.flags.writeable = False
    dom = (lo, hi) if rng.random() < 0.5 else (xt.min(0), xt.max(0))
    label = f"{n} points"
    with Box(rng, None, 1, epochs=3, iter_num=1, batch=15, ops=OPS[:6], seed=int(rng.integers(1 << 20))) as box, R.quiet():
        mod = box.mod
        pretrain = mod.pretrain

        def first(*a, **k):
            imported(m, box, None, label)
            return pretrain(*a, **k)
        mod.pretrain = first
        res = mod.fit(xt, u, dom, n_epochs=1, verbose=False)
        d = mod.data_class.get_data()
        rows = lambda a, b: sorted(map(tuple, np.column_stack([a, b]).tolist()))
        m.check(rows(np.vstack([d["X_u_train"], d["X_u_val"]]), np.vstack([d["u_train"], d["u_val"]])) == rows(*keep), "every-observation-once", label)
        m.check(len(d["u_train"]) == int(n * 0.8), "four-fifths-train", f"{label}: {len(d['u_train'])}")
        m.check(np.array_equal(d["lb"], dom[0]) and np.array_equal(d["ub"], dom[1]), "domain-kept", label)
        f = np.asarray(d["X_f_train"])
        m.check(np.all(f >= np.minimum(dom[0], keep[0].min(0)) - 1e-12) and np.all(f <= np.maximum(dom[1], keep[0].max(0)) + 1e-12), "collocation-in-domain", label)
        have = set(map(tuple, f.tolist()))
        m.check(all(tuple(r) in have for r in d["X_u_train"].tolist()) and len(f) > 1000, "collocation-covers-observations", f"{label}: {len(f)}")
        cells = np.unique((f - dom[0]) // ((dom[1] - dom[0]) / 4), axis=0)
        m.check(len(cells) >= 16, "collocation-fills-domain", f"{label}: {len(cells)} of 16 cells")
        pts = meta(m, mod, {}, label)
        judge(m, res["program"], mod, pts, {}, 1, label)
        m.check(abs(float(res["r"]) - float(res["program"].r_ridge)) < 1e-12, "reward-of-the-program", label)
        m.saw("scattered")
        m.distinct((n, keep[1].tobytes()))


@workload(quick=6, thorough=40, timeout=300)
def large(m, rng, i):
    """data in large units: the loss is large, too"""
    from kd.dataset import PDEDataset
    ds, dim, params = problem(rng, 1)
    sc = float(10.0 ** rng.integers(5, 8))
    ds = PDEDataset(equation_name="w", x=ds.x, t=ds.t, usol=np.asarray(ds.usol) * sc, **(dict(param_fields=params) if params else {}))
    with Box(rng, ds, 1, epochs=4, iter_num=1, batch=12, pre=3) as box, R.quiet():
        box.mod.import_dataset(ds, **box.opts)
        res = box.mod.train(n_epochs=1, verbose=False)
        m.saw("large")
        m.check(np.isfinite(float(res["r"])) and 0 <= float(res["r"]) <= 1, "reward-in-range", f"scale {sc}: {res['r']}")
        files = [f for _, _, fs in os.walk(box.tmp) for f in fs]
        m.check(any(f.endswith("_pinn1.ckpt") for f in files), "weights-written", f"scale {sc}: {files}")
        m.distinct((sc, ds.usol.tobytes()))


@workload(quick=20, thorough=200)
def refusals(m, rng, i):
    """parameters that vary in space cannot be evaluated at scattered points"""
    from kd.dataset import PDEDataset
    x, t = R.axis_values(rng, 9), R.axis_values(rng, 8)
    G = np.meshgrid(x, t, indexing="ij")
    u = R.smooth_field(rng, G, offset=2.0)
    vary = np.full(u.shape, 1.5)
    vary[int(rng.integers(9)), int(rng.integers(8))] = 1.6
    kind = int(rng.integers(3))
    with Box(rng, None, 1, ops=OPS, pre=2) as box, R.quiet():
        if kind == 0:
            ds = PDEDataset(equation_name="w", x=x, t=t, usol=u, param_fields={"nu": vary})
            box.mod.import_dataset(ds, **box.opts)
            m.raises(NotImplementedError, box.mod.pretrain, "varying-parameter-refused", "nu")
        elif kind == 1:
            m.raises(TypeError, lambda: box.mod.import_dataset({"x": x, "t": t, "usol": u}), "not-a-dataset", "dict")
        else:
            ds = PDEDataset(equation_name="w", x=x, t=t, usol=u)
            m.raises(ValueError, lambda: box.mod.import_dataset(ds, sample_ratio=float(rng.choice([0.0, -0.5, 1.5]))), "ratio-refused", "ratio")
        m.saw("refused")
        m.distinct((kind, u.tobytes()))


@workload(quick=200, thorough=3000)
def candidates(m, rng, i):
    """of the candidates with one error only the shortest is kept"""
    from kd.model.discover.ga_utils import drop_duplicates
    n = int(rng.integers(1, 11))
    group = rng.integers(0, int(rng.integers(1, 6)), n)
    values = [np.float64(0.5 + g) for g in group]
    lens = [int(v) for v in rng.integers(1, 6, n)]
    toks = [[f"t{k}"] * L for k, L in enumerate(lens)]
    out, vals = drop_duplicates([list(t) for t in toks], list(values))
    label = f"groups {group.tolist()} lengths {lens}"
    m.check(sorted(float(v) for v in vals) == sorted({float(v) for v in values}), "one-per-error", f"{label}: {vals}")
    for t, v in zip(out, vals):
        k = int(t[0][1:])
        m.check(values[k] == v and len(t) == min(L for L, w in zip(lens, values) if w == v), "shortest-kept", f"{label}: {out}")
    m.saw("candidates")
    m.distinct((tuple(group), tuple(lens)))


@workload(quick=150, thorough=2000)
def operators(m, rng, i):
    """the operators equations are made of, away from the network: exact wherever they are not protected"""
    import torch
    from kd.model.discover.functions import function_map as F
    n = int(rng.integers(3, 40))
    wide = lambda lo, hi: rng.choice([-1.0, 1.0], n) * 10.0 ** rng.uniform(lo, hi, n)
    a, b = wide(-9, 5.9), wide(-7.9, 5.9)
    some = rng.random(n) < 0.3
    a[some], b[some] = rng.normal(size=some.sum()) * 3, wide(-3, 1)[some]
    A, B = torch.tensor(a[:, None], requires_grad=True), torch.tensor(b[:, None], requires_grad=True)
    want = {"add_t": (a + b, 1 + 0 * a, 1 + 0 * a), "sub_t": (a - b, 1 + 0 * a, -1 + 0 * a), "mul_t": (a * b, b, a), "div_t": (a / b, 1 / b, -a / b / b)}
    for name, (v, da, db) in want.items():
        out = F[name](A, B)
        ga, gb = torch.autograd.grad(out, (A, B), torch.ones_like(out))
        m.close(out.detach().numpy()[:, 0], v, "operator-value", rtol=1e-12, atol=1e-300, msg=name)
        m.close(ga.numpy()[:, 0], da, "operator-gradient", rtol=1e-12, atol=1e-300, msg=name)
        m.close(gb.numpy()[:, 0], db, "operator-gradient", rtol=1e-12, atol=1e-300, msg=name)
    for name, k in (("n2_t", 2), ("n3_t", 3)):
        out = F[name](A)
        ga, = torch.autograd.grad(out, A, torch.ones_like(out))
        m.close(out.detach().numpy()[:, 0], a ** k, "operator-value", rtol=1e-12, atol=1e-300, msg=name)
        m.close(ga.numpy()[:, 0], k * a ** (k - 1), "operator-gradient", rtol=1e-12, atol=1e-300, msg=name)
        big = F[name](torch.tensor(wide(6.1, 150)[:, None])).numpy()
        m.check(np.all(np.isfinite(big)), "protected-operator-finite", name)
    tiny = rng.choice([0.0, -0.0, 1e-8, -1e-8, 1e-9, -1e-300, 1e-12], n)
    q = F["div_t"](torch.tensor(rng.normal(size=(n, 1))), torch.tensor(tiny[:, None])).numpy()
    m.check(np.all(np.isfinite(q)), "protected-operator-finite", f"division by {tiny}: {q[:, 0]}")
    m.saw("operator-values", n)
    m.distinct(a.tobytes())
