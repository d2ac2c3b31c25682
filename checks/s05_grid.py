"""S05: the SGA problem set-up describes the dataset it was given."""
import numpy as np
from vkit import workload
from vkit import sga_ref as R

PROPERTY = "S05"
RULE = "distinct (axis order, target, lhs, grid shape, option) set-ups compared entry by entry with the source arrays"
REQUIRE = {"setup": 60, "variable": 300, "rejected": 20, "autograd": 6, "network": 15, "training": 15, "refined": 15, "builtin": 9}
ASSUME = ["autograd set-ups are driven with analytic models supplied through the configuration; float32 tolerance"]


def variables(arr):
    return {str(e[0]): np.asarray(e[2]) for e in arr}


def compare(m, ctx, prob, tag, deriv_tol=1e-9):
    m.saw("setup")
    m.check(ctx.axis_order == prob.axis_order, "axis-order", f"{ctx.axis_order}")
    V = variables(ctx.VARS)
    names = [str(e[0]) for e in ctx.VARS]
    m.check(len(set(names)) == len(names), "unique-variable-names", str(names))
    m.check(set(names) == set(prob.env), "variable-set", f"{tag}: {sorted(names)} expected {sorted(prob.env)}")
    m.check(prob.lhs not in names and f"{prob.target}_{prob.lhs}" not in names and not any(
        n.endswith("_" + prob.lhs) for n in names), "no-lhs-derivative-on-rhs", str(names))
    for k, want in prob.env.items():
        if k in V:
            m.saw("variable")
            scale = np.abs(want).max() + 1e-300
            tol = deriv_tol if "_" in k and k not in prob.params and k not in prob.fields else 1e-12
            m.close(np.broadcast_to(V[k], want.shape), want, "variable-value", rtol=0, atol=tol * scale, msg=f"{tag} {k}")
    D = variables(ctx.den)
    m.check(sorted(D) == sorted(prob.rhs_axes), "derivative-axes", f"{tag}: {sorted(D)} vs {sorted(prob.rhs_axes)}")
    sc = np.abs(prob.ut).max() + 1e-300
    m.close(ctx.ut, prob.ut, "lhs-value", rtol=0, atol=deriv_tol * sc, msg=f"{tag} lhs")
    for a, d in prob.delta.items():
        m.close(ctx.delta[a], d, "spacing", rtol=1e-12, msg=f"{tag} {a}")
    F = np.asarray(ctx.default_terms)
    m.check(F.shape == (prob.ut.size, 1) and np.allclose(F[:, 0], prob.fields[prob.target].reshape(-1), rtol=1e-12), "default-feature", tag)
    m.distinct((tag, tuple(prob.axis_order), prob.target, prob.lhs, prob.shape))


@workload(quick=200, thorough=3000)
def finite_difference(m, rng, i):
    ds, prob, kind = R.gen_problem(rng)
    ctx = R.make_context(ds)
    compare(m, ctx, prob, kind)
    prim = ctx.primary_spatial_axis
    m.check(prim in prob.rhs_axes and (prim == "x" or "x" not in prob.rhs_axes), "primary-axis", f"{kind}: {prim} of {prob.axis_order}")
    ux = prob.env[f"{prob.target}_{prim}"]
    ax, d = prob.idx[prim], prob.delta[prim]
    m.close(ctx.ux, ux, "ux", rtol=1e-9, atol=1e-9, msg=kind)
    uxx = R.fd1(ux, d, ax)
    m.close(ctx.uxx, uxx, "uxx", rtol=1e-8, atol=1e-8 * (1 + np.abs(uxx).max()), msg=kind)
    uxxx = R.fd1(uxx, d, ax)
    m.close(ctx.uxxx, uxxx, "uxxx", rtol=1e-8, atol=1e-8 * (1 + np.abs(uxxx).max()), msg=kind)
    originals(m, ctx, prob, kind)


def originals(m, ctx, prob, label):
    """without refinement or cropping the original-grid derivatives are those of the search grid"""
    for n in ("ut", "ux", "uxx", "uxxx"):
        a = np.asarray(getattr(ctx, n), float)
        m.close(np.asarray(getattr(ctx, n + "_origin"), float), a, "original-grid", rtol=1e-9, atol=1e-9 * (np.abs(a).max() + 1e-300), msg=f"{label} {n}")
    m.close(np.asarray(ctx.u_origin, float), prob.fields[prob.target], "original-grid", rtol=1e-12, msg=f"{label} u")


@workload(quick=60, thorough=1000)
def explicit_choices(m, rng, i):
    """target field / lhs axis / primary axis chosen on the estimator rather than in the dataset."""
    from kd.model.kd_sga import KD_SGA
    from kd.dataset import PDEDataset
    order = [str(a) for a in [["x", "t"], ["t", "x"], ["x", "y", "t"], ["y", "t", "x"], ["r", "s"], ["x", "x2", "t"], ["xx", "x", "t"]][rng.integers(7)]]
    coords = {a: R.axis_values(rng, int(rng.integers(5, 9))) for a in order}
    grids = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    fields = {"u": R.smooth_field(rng, grids), "rho": R.smooth_field(rng, grids)}
    if rng.random() < 0.4:           # names that begin alike
        fields = {k: R.smooth_field(rng, grids) for k in (["u", "u2", "rho"] if rng.random() < 0.5 else ["uu", "u", "rho"])}
    target = str(rng.choice(["u", "rho"]))
    lhs = str(rng.choice(order))
    kw = {}
    rest = [a for a in order if a != lhs]
    if rng.random() < 0.5:
        kw["primary_spatial_axis"] = str(rng.choice(rest))
    ds = PDEDataset(equation_name="rand", fields_data={k: v.copy() for k, v in fields.items()},
                    coords_1d={k: v.copy() for k, v in coords.items()}, axis_order=order,
                    target_field=target, lhs_axis=lhs)
    kw2 = {}
    if rng.random() < 0.5:           # the estimator's choice overrides the dataset's
        target = str(rng.choice(["u", "rho"]))
        kw2["target_field"] = target
    if rng.random() < 0.5:
        lhs = str(rng.choice(order))
        kw2["lhs_axis"] = lhs
    if kw.get("primary_spatial_axis") == lhs:
        kw = {}
    with R.quiet():
        est = KD_SGA(sga_run=1, num=2, depth=2, width=2, **kw, **kw2).fit_dataset(ds)
    prob = R.Problem(fields, coords, order, target, lhs)
    compare(m, est.context_, prob, f"explicit{sorted(kw)}{sorted(kw2)}")
    if kw:
        m.check(est.context_.primary_spatial_axis == kw["primary_spatial_axis"], "primary-axis-choice", "")
        m.close(est.context_.ux, prob.env[f"{target}_{kw['primary_spatial_axis']}"], "ux", rtol=1e-9, atol=1e-9)
    originals(m, est.context_, prob, f"explicit {order} {lhs} {kw}")
    with R.quiet():
        d = est.best_equation_details_
    m.check(d.lhs == f"{target}_{lhs}", "lhs-label", f"{d.lhs} for {target}, {lhs}")


@workload(quick=40, thorough=600)
def edge_deletion(m, rng, i):
    """Dropping edges keeps exactly the central 80% of x and everything stays aligned."""
    kind = ["legacy", "tx", "xt", "param_legacy", "param", "multi"][i % 6]
    ds, prob, kind = R.gen_problem(rng, kind)
    if prob.axis_order not in (["x", "t"], ["t", "x"]) or len(prob.coords["x"]) < 6:
        ds, prob, kind = R.gen_problem(rng, "legacy")
    ctx = R.make_context(ds, delete_edges=True)
    n = len(prob.coords["x"])
    sl = slice(int(n * 0.1), int(n * 0.9))
    cut = [slice(None)] * 2
    cut[prob.idx["x"]] = sl
    cut = tuple(cut)
    coords = dict(prob.coords)
    coords["x"] = coords["x"][sl]
    p2 = R.Problem({k: v[cut] for k, v in prob.fields.items()}, coords, prob.axis_order, prob.target, prob.lhs,
                   {k: v[cut] for k, v in prob.params.items()})
    compare(m, ctx, p2, "cropped " + kind)
    m.saw("cropped")


@workload(quick=60, thorough=600)
def polynomials(m, rng, i):
    """Second-order stencils are exact on quadratics, at the edges too, along any axis."""
    from kd.dataset import PDEDataset
    order = [["x", "t"], ["t", "x"], ["x", "y", "t"], ["t", "z", "x"]][i % 4]
    coords = {a: R.axis_values(rng, int(rng.integers(4, 9))) for a in order}
    g = dict(zip(order, np.meshgrid(*[coords[a] for a in order], indexing="ij")))
    c0 = rng.normal()
    lin = {a: rng.normal() for a in order}
    quad = {a: rng.normal() for a in order}
    cross = rng.normal()
    u = c0 + sum(lin[a] * g[a] + quad[a] * g[a] ** 2 for a in order) + cross * g[order[0]] * g[order[1]]
    exact = {}
    for a in order:
        e = lin[a] + 2 * quad[a] * g[a]
        if a == order[0]:
            e = e + cross * g[order[1]]
        if a == order[1]:
            e = e + cross * g[order[0]]
        exact[a] = e
    ds = PDEDataset(equation_name="poly", fields_data={"u": u}, coords_1d=coords, axis_order=order)
    ctx = R.make_context(ds)
    V = variables(ctx.VARS)
    scale = 1e-9 * (1 + np.abs(u).max()) / min(R_ for R_ in [abs(c[1] - c[0]) for c in coords.values()])
    m.close(ctx.ut, exact["t"], "exact-on-quadratics", rtol=1e-9, atol=scale, msg="lhs")
    for a in order:
        if a != "t":
            m.close(V["u_" + a], exact[a], "exact-on-quadratics", rtol=1e-9, atol=scale, msg=a)
    m.saw("polynomial")


@workload(quick=40, thorough=500, timeout=200)
def autograd(m, rng, i):
    """Network-based derivatives of a model whose derivatives are known analytically."""
    import torch
    from kd.dataset import PDEDataset
    order = [["x", "t"], ["t", "x"], ["x", "y", "t"], ["y", "t", "x"]][i % 4]
    order = list(order)
    coords = {a: R.axis_values(rng, int(rng.integers(5, 10))) for a in order}
    grids = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    multi = i % 8 >= 4
    names = ["u", "v"] if multi else ["u"]
    fields = {k: R.smooth_field(rng, grids) for k in names}
    normal = bool(rng.integers(2))
    W = {k: rng.uniform(0.3, 1.2, len(order)) for k in names}
    B = {k: float(rng.uniform(0, 6)) for k in names}

    class Wave(torch.nn.Module):
        input_dim = len(order)

        def __init__(self, w, b):
            super().__init__()
            self.w, self.b = torch.tensor(w, dtype=torch.float32), b

        def forward(self, X):
            return torch.sin(X @ self.w + self.b).view(-1, 1)
    ds = PDEDataset(equation_name="rand", fields_data={k: v.copy() for k, v in fields.items()},
                    coords_1d={k: v.copy() for k, v in coords.items()}, axis_order=order)
    ctx = R.make_context(ds, attrs={"autograd_models": {k: Wave(W[k], B[k]) for k in names}}, use_autograd=True, normal=normal)
    X = np.stack([g.reshape(-1) for g in grids], 1)
    mu, sd = X.mean(0), X.std(0)
    V = variables(ctx.VARS)
    for k in names:
        s = np.std(fields[k]) if normal else 1.0
        Z = (X - mu) / sd if normal else X
        sc = sd if normal else np.ones(len(order))
        arg = Z @ W[k] + B[k]
        for j, a in enumerate(order):
            want = (s * W[k][j] / sc[j] * np.cos(arg)).reshape(grids[0].shape)
            tol = 2e-4 * np.abs(s * W[k][j] / sc[j])
            if a == "t":
                if k == "u":
                    m.close(ctx.ut, want, "autograd-lhs", rtol=0, atol=tol, msg=f"{order} normal={normal}")
                m.check(f"{k}_t" not in V, "no-lhs-derivative-on-rhs", "")
            else:
                m.close(np.asarray(V[f"{k}_{a}"], dtype=float), want, "autograd-derivative", rtol=0, atol=tol, msg=f"{order} {k}_{a} normal={normal}")
        if k == "u" and not multi and len(order) == 2:
            j = order.index("x")
            w2 = (-s * (W[k][j] / sc[j]) ** 2 * np.sin(arg)).reshape(grids[0].shape)
            w3 = (-s * (W[k][j] / sc[j]) ** 3 * np.cos(arg)).reshape(grids[0].shape)
            m.close(ctx.uxx, w2, "autograd-second", rtol=0, atol=5e-4 * np.abs(w2).max() + 1e-6, msg=f"{order}")
            m.close(ctx.uxxx, w3, "autograd-third", rtol=0, atol=5e-4 * np.abs(w3).max() + 1e-6, msg=f"{order}")
    m.check(ctx.ut.shape == grids[0].shape, "autograd-shape", "")
    m.saw("autograd")
    m.distinct(("autograd", tuple(order), normal, multi, grids[0].shape))


@workload(quick=120, thorough=1200)
def rejections(m, rng, i):
    """A grid the solver cannot handle correctly is refused, never silently accepted."""
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    order = ["x", "t"] if i % 2 else ["x", "y", "t"]
    coords = {a: R.axis_values(rng, int(rng.integers(6, 9))) for a in order}
    grids = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    fields = {"u": R.smooth_field(rng, grids)}
    kw = {}
    bad = ["shape", "dup-coord", "nonuniform", "nonmonotone", "missing-coord", "extra-coord", "dup-axis", "field-is-axis",
           "field-is-derivative", "bad-name", "no-target", "no-lhs", "short", "underscore-axis", "good"][int(rng.integers(15))]
    a = str(rng.choice(order))
    ax = order.index(a)
    if bad == "shape":
        fields["w"] = np.swapaxes(fields["u"], 0, 1)[..., :-1]
    elif bad == "dup-coord":
        coords[a] = coords[a].copy()
        coords[a][2] = coords[a][1]
    elif bad == "nonuniform":
        coords[a] = np.cumsum(rng.uniform(0.1, 0.5, len(coords[a])))
        if rng.random() < 0.6:       # nearly uniform, coarse or fine, rising or falling
            h = 10.0 ** rng.uniform(-3, 2)
            coords[a] = h * (np.arange(len(coords[a])) + 0.0)
            coords[a][int(rng.integers(1, len(coords[a]) - 1))] += h * rng.uniform(0.05, 0.4) * rng.choice([-1, 1])
            coords[a] = coords[a] * rng.choice([-1, 1]) + rng.uniform(-1, 1)
    elif bad == "nonmonotone":
        coords[a] = coords[a].copy()
        k = int(rng.integers(1, len(coords[a]) - 2))
        coords[a][[k, k + 1]] = coords[a][[k + 1, k]]
        if rng.random() < 0.5:
            coords[a] = -coords[a]
        if rng.random() < 0.5:
            kw["enforce_uniform_grid"] = False
    elif bad == "missing-coord":
        coords.pop(a)
    elif bad == "extra-coord":
        coords["z"] = np.arange(4.0)
    elif bad == "dup-axis":
        order = order + [a]
    elif bad == "field-is-axis":
        fields[a] = fields["u"]
    elif bad == "field-is-derivative":
        fields["u_" + a] = fields["u"]
    elif bad == "bad-name":
        fields[str(rng.choice(["1u", "u v", "", "d^2", "u-x"]))] = fields["u"]
    elif bad == "no-target":
        kw["target_field"] = "w"
    elif bad == "no-lhs":
        kw["lhs_axis"] = "q"
    elif bad == "short":
        coords[a] = coords[a][:2]
        fields["u"] = np.take(fields["u"], [0, 1], axis=ax)
    elif bad == "underscore-axis":
        order = [o if o != a else a + "_1" for o in order]
        coords = {o: coords[o if o in coords else a] for o in order}

    def build():
        with R.quiet():
            return ProblemContext(SolverConfig(problem_name="custom_dataset", fields_data=fields, coords_1d=coords, axis_order=order, **kw))
    if bad == "good":
        build()
        m.check(True, "good-accepted")
        return
    m.saw("rejected")
    m.raises((ValueError, TypeError, KeyError, NotImplementedError), build, "rejects:" + bad, f"{bad} on {a}")
    m.distinct(("reject", bad, len(order), a))


@workload(quick=200, thorough=4000)
def names(m, rng, i):
    """Derivative names survive a build/parse round trip and are never shared by two quantities."""
    from kd.model.sga.sgapde import naming as N
    pool = ["u", "v", "w1", "rho", "T", "u_1", "phi_b", "ux", "x2"]
    axes = [str(a) for a in rng.permutation(["x", "y", "t", "r", "lat", "xx", "s1", "z"])[:rng.integers(1, 5)]]
    fields = [str(f) for f in rng.permutation(pool)[:rng.integers(1, 5)]]
    seen = {}
    for f in fields:
        for a in axes:
            for k in range(1, 4):
                key = N.build_derivative_key(f, a, order=k)
                amb = sum(1 for b in axes if len(a * k) % len(b) == 0 and b * (len(a * k) // len(b)) == a * k) > 1
                m.saw("name")
                if amb:
                    m.raises(ValueError, lambda: N.parse_derivative_key(key, known_axes=axes), "ambiguous-name-refused", key)
                    continue
                m.check(N.parse_derivative_key(key, known_axes=axes) == (f, a, k), "name-round-trip", f"{key} with {axes}")
                m.check(key not in seen or seen[key] == (f, a, k), "name-unique", f"{key}: {seen.get(key)} and {(f, a, k)}")
                seen[key] = (f, a, k)
                if len(fields) == 1:
                    legacy = f + a * k
                    if "_" not in legacy and all(len(b) == 1 for b in axes):
                        m.check(N.normalize_legacy_derivative_key(legacy, field_names=fields, axis_names=axes) == key, "legacy-name", legacy)
    coords = axes
    mix = [str(c) for c in rng.permutation(pool + coords)[:6]]
    mix = list(dict.fromkeys(mix))
    r = N.resolve_field_name_conflicts(field_names=mix, coord_names=coords)
    m.check(list(r) == mix and len(set(r.values())) == len(mix) and not set(r.values()) & set(coords), "conflicts-resolved", f"{r} coords {coords}")
    m.check(all(r[f] == f for f in mix if f not in coords and not any(r[g] == f for g in mix if g != f)), "free-names-kept", f"{r}")
    m.distinct(("names", tuple(axes), tuple(fields)))


def network_fields(model, axes_grids, scale_from, normal):
    """value and derivatives, in the model's own scale, of a copy of the network in double precision"""
    import copy
    import torch
    X = np.stack([g.reshape(-1) for g in axes_grids], 1)
    mu, sd = (X.mean(0), np.where(X.std(0) == 0, 1, X.std(0))) if normal else (np.zeros(X.shape[1]), np.ones(X.shape[1]))
    s = np.std(scale_from) or 1.0
    s = s if normal else 1.0
    Z = torch.tensor((X - mu) / sd, dtype=torch.float64, requires_grad=True)
    net = copy.deepcopy(model).double().cpu()

    def d(y, j):
        return torch.autograd.grad(y.sum(), Z, create_graph=True)[0][:, j]
    y = net(Z).reshape(-1)
    shape = axes_grids[0].shape

    def num(v, js):
        k = s
        for j in js:
            k = k / sd[j]
        return (v.detach().numpy() * k).reshape(shape)
    out = {}
    for j in range(len(axes_grids)):
        v, js = y, []
        for o in (1, 2, 3):
            v = d(v, j)
            js.append(j)
            out[j, o] = num(v, js)
    return y.detach().numpy().reshape(shape) * s, out


@workload(quick=24, thorough=300, timeout=300)
def trained_networks(m, rng, i):
    """derivatives of networks the set-up trains itself or reads from a file"""
    import os
    import torch
    from kd.dataset import PDEDataset
    from kd.model.sga.sgapde.config import Net
    order = [["x", "t"], ["t", "x"], ["x", "y", "t"], ["x", "t"]][i % 4]
    multi = rng.random() < 0.3
    coords = {a: R.axis_values(rng, int(rng.integers(6, 11))) for a in order}
    grids = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    fields = {k: R.smooth_field(rng, grids) * rng.uniform(0.5, 5) for k in (["u", "v"] if multi else ["u"])}
    ds = PDEDataset(equation_name="rand", fields_data={k: v.copy() for k, v in fields.items()},
                    coords_1d={k: v.copy() for k, v in coords.items()}, axis_order=list(order))
    cfg = dict(use_autograd=True, normal=bool(rng.integers(2)), hidden_dim=int(rng.integers(4, 16)), max_epoch=int(rng.integers(3, 40)),
               seed=int(rng.integers(100)))
    cut = [slice(None)] * len(order)
    if len(order) == 2 and rng.random() < 0.4:
        cfg["delete_edges"] = True
        n = len(coords["x"])
        cut[order.index("x")] = slice(int(n * 0.1), int(n * 0.9))
    from_file = rng.random() < 0.4
    label = f"{order} {sorted(fields)} {cfg} file={from_file}"
    if from_file:
        torch.manual_seed(int(rng.integers(1000)))
        saved = Net(len(order), cfg["hidden_dim"], 1)
        cfg["model_path"] = os.path.abspath(f"net{i}.pkl")
        torch.save(saved.state_dict(), cfg["model_path"])
    else:
        cfg["model_path"] = os.path.abspath(f"absent{i}.pkl")
    ctx = R.make_context(ds, **cfg)
    cut = tuple(cut)
    g2 = [g[cut] for g in grids]
    V = variables(ctx.VARS)
    nets = ctx.config.autograd_models
    if from_file:
        a, b = saved.state_dict(), nets["u"].state_dict()
        m.check(set(a) == set(b) and all(torch.equal(a[k], b[k].cpu()) for k in a), "network-is-the-file's", label)
    for k, f in fields.items():
        _, D = network_fields(nets[k], g2, f[cut], cfg["normal"])
        for j, ax in enumerate(order):
            got = ctx.ut if (ax, k) == ("t", "u") else V.get(f"{k}_{ax}")
            if ax == "t" and k != "u":
                m.check(got is None, "no-lhs-derivative-on-rhs", label)
                continue
            if m.check(got is not None and np.shape(got) == g2[0].shape, "autograd-shape", f"{label} {k}_{ax}"):
                m.close(np.asarray(got, float), D[j, 1], "network-derivative", rtol=0, atol=2e-3 * np.abs(D[j, 1]).max() + 1e-9, msg=f"{label} {k}_{ax}")
        if k == "u" and not multi and len(order) == 2:
            j = order.index("x")
            for o, got in ((2, ctx.uxx), (3, ctx.uxxx)):
                m.close(got, D[j, o], "network-derivative", rtol=0, atol=5e-3 * np.abs(D[j, o]).max() + 1e-9, msg=f"{label} order {o}")
    m.close(V["u"], fields["u"][cut], "network-keeps-data", rtol=1e-12, msg=label)
    m.saw("network")
    m.distinct(("network", label))


@workload(quick=24, thorough=300, timeout=300)
def network_training(m, rng, i):
    """the network's samples are the field's, training is repeatable and leaves the random state alone"""
    import torch
    from kd.model.sga.sgapde.metann import prepare_training_data, train_metanet
    order = [str(a) for a in rng.permutation(["x", "y", "t"])[:int(rng.integers(1, 4))]]
    coords = {a: R.axis_values(rng, int(rng.integers(4, 9))) for a in order}
    keys = [str(k) for k in rng.permutation(order)]
    given = {k: coords[k].copy() for k in keys}
    grids = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    f = R.smooth_field(rng, grids) * rng.uniform(0.5, 20)
    label = f"{order} {f.shape}"
    for normal in (False, True):
        X, y, st = prepare_training_data(given, f.copy(), axis_order=order, normalize=normal)
        want = np.stack([g.reshape(-1) for g in grids], 1)
        mu, sd, ym, ys = (want.mean(0), want.std(0), f.mean(), f.std()) if normal else (0, 1, 0, 1)
        m.check(X.shape == want.shape and y.shape == (f.size, 1), "samples-shape", label)
        m.close(X * sd + mu, want, "samples-coordinates", rtol=1e-9, atol=1e-9, msg=label)
        m.close(y * ys + ym, f.reshape(-1, 1), "samples-values", rtol=1e-9, atol=1e-9 * np.abs(f).max(), msg=label)
        m.close(st["x_mean"], want.mean(0), "samples-statistics", rtol=1e-9, atol=1e-12, msg=label)
        m.close(np.ravel(st["y_std"]), [f.std()], "samples-statistics", rtol=1e-9, msg=label)
    kw = dict(axis_order=order, hidden_dim=12, normalize=True, seed=int(rng.integers(50)))
    np.random.seed(5)
    torch.manual_seed(5)
    s0, t0 = np.random.get_state()[1].copy(), torch.get_rng_state().clone()
    start, _ = train_metanet(given, f.copy(), max_epoch=0, **kw)
    net, _ = train_metanet(given, f.copy(), max_epoch=200, **kw)
    m.check(np.array_equal(np.random.get_state()[1], s0) and torch.equal(torch.get_rng_state(), t0), "training-keeps-random-state", label)
    torch.rand(3)
    np.random.rand(3)
    again, _ = train_metanet(given, f.copy(), max_epoch=200, **kw)
    m.check(all(torch.equal(a, b) for a, b in zip(net.state_dict().values(), again.state_dict().values())), "training-repeats", label)
    Xn, yn = torch.tensor(X, dtype=torch.float32), torch.tensor(y, dtype=torch.float32)

    def loss(n):
        with torch.no_grad():
            return float(torch.mean((n(Xn) - yn) ** 2))
    a, b = loss(start), loss(net)
    m.check(b < a and b < 1.0, "training-approaches-the-field", f"{label}: {a} to {b}")
    m.check(all(np.array_equal(given[k], coords[k]) for k in order), "training-keeps-inputs", label)
    bad = [lambda: prepare_training_data(given, f, axis_order=order + [order[0]]), lambda: prepare_training_data(given, f, axis_order=order[:-1] + ["w"]),
           lambda: prepare_training_data(given, f[:-1], axis_order=order), lambda: train_metanet(given, f, max_epoch=0, train_ratio=0.0),
           lambda: train_metanet(given, f, max_epoch=0, train_ratio=1.5)]
    m.raises(ValueError, bad[i % len(bad)], "training-refuses", f"{label} {i % len(bad)}")
    m.saw("training")
    m.distinct(("training", label))


@workload(quick=24, thorough=300, timeout=120)
def refined_grids(m, rng, i):
    """metadata mode: the search runs on the network's values on a finer grid over the same domain"""
    import os
    import torch
    from kd.dataset import PDEDataset
    from kd.model.sga.sgapde.config import Net
    nx, nt = int(rng.integers(8, 16)), int(rng.integers(8, 16))
    x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
    G = np.meshgrid(x, t, indexing="ij")
    u = R.smooth_field(rng, G) * rng.uniform(0.5, 5)
    ds = PDEDataset(equation_name="e", x=x.copy(), t=t.copy(), usol=u.copy())
    normal, ratio, h = bool(rng.integers(2)), int(rng.integers(1, 4)), int(rng.integers(4, 12))
    torch.manual_seed(int(rng.integers(1000)))
    net = Net(2, h, 1)
    path = os.path.abspath(f"meta{i}.pkl")
    torch.save(net.state_dict(), path)
    edges = rng.random() < 0.3
    label = f"{nx}x{nt} ratio {ratio} normal={normal} edges={edges}"
    kw = dict(use_metadata=True, model_path=path, hidden_dim=h, fine_ratio=ratio, normal=normal)
    ctx = R.make_context(ds, delete_edges=edges, **kw)
    xf, tf = np.linspace(x.min(), x.max(), ratio * nx), np.linspace(t.min(), t.max(), ratio * nt)
    F = np.meshgrid(xf, tf, indexing="ij")
    X = np.stack([g.reshape(-1) for g in F], 1)
    cands = []
    for ref in (F, G):          # the inputs may be scaled by either grid's statistics
        Y = np.stack([g.reshape(-1) for g in ref], 1)
        Z = (X - Y.mean(0)) / Y.std(0) if normal else X
        with torch.no_grad():
            v = net.double()(torch.tensor(Z)).numpy().reshape(F[0].shape)
        cands.append(v * u.std() + u.mean() if normal else v)
    sl = slice(int(len(xf) * 0.1), int(len(xf) * 0.9)) if edges else slice(None)
    xf, cands = xf[sl], [c[sl] for c in cands]
    V = variables(ctx.VARS)
    if not m.check(np.shape(V["u"]) == cands[0].shape, "refined-shape", f"{label}: {np.shape(V['u'])} for {cands[0].shape}"):
        return
    k = int(np.argmin([np.abs(V["u"] - c).max() for c in cands]))
    m.close(V["u"], cands[k], "refined-values", rtol=0, atol=1e-4 * np.abs(cands[k]).max(), msg=label)
    m.close(np.asarray(ctx.coords_1d["x"]), xf, "refined-coordinates", rtol=1e-12, atol=1e-12 * np.abs(xf).max(), msg=label)
    m.close(np.asarray(ctx.coords_1d["t"]), tf, "refined-coordinates", rtol=1e-12, atol=1e-12 * np.abs(tf).max(), msg=label)
    w = np.asarray(V["u"], float)
    dx, dt = xf[1] - xf[0], tf[1] - tf[0]
    single = 1e-6 * np.abs(w).max()     # values come from single precision
    for got, want, h, n in ((ctx.ut, R.fd1(w, dt, 1), dt, "u_t"), (V["u_x"], R.fd1(w, dx, 0), dx, "u_x"),
                            (ctx.uxx, R.fd1(R.fd1(w, dx, 0), dx, 0), dx * dx, "u_xx")):
        m.close(np.asarray(got, float), want, "refined-derivative", rtol=0, atol=1e-6 * np.abs(want).max() + single / h, msg=f"{label} {n}")
    m.close(ctx.u_origin, u, "refined-keeps-the-original", rtol=1e-12, msg=label)
    m.close(ctx.x_origin * np.ones_like(u), G[0], "refined-keeps-the-original", rtol=1e-12, atol=1e-12, msg=label)
    m.close(ctx.t_origin * np.ones_like(u), G[1], "refined-keeps-the-original", rtol=1e-12, atol=1e-12, msg=label)
    m.close(ctx.ut_origin, R.fd1(u, t[1] - t[0], 1), "refined-keeps-the-original", rtol=1e-8, atol=1e-8 * np.abs(u).max(), msg=label)
    m.close(ctx.ux_origin, R.fd1(u, x[1] - x[0], 0), "refined-keeps-the-original", rtol=1e-8, atol=1e-8 * np.abs(u).max(), msg=label)
    m.check(np.array_equal(ds.usol, u) and np.array_equal(ds.x, x), "refined-keeps-the-dataset", label)
    m.raises((FileNotFoundError, ValueError), lambda: R.make_context(ds, **dict(kw, model_path=path + "x")), "missing-network-refused", label)
    two = PDEDataset(equation_name="e", fields_data={"u": u.T}, coords_1d={"x": x, "t": t}, axis_order=["t", "x"])
    m.raises((NotImplementedError, ValueError), lambda: R.make_context(two, **kw), "refined-layout-refused", label)
    m.saw("refined")
    m.distinct(("refined", label))


@workload(quick=12, thorough=24, timeout=120)
def builtin_problems(m, rng, i):
    """the built-in problems' reference equations hold on the data they come with"""
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    names = [("chafee-infante", "chafee_infante", "Chafee Infante"), ("burgers", "Burgers2", "burgers_equation"), ("kdv", "KdV equation", "kdv_equation")]
    group = names[i % 3]
    name = group[(i // 3) % 3]
    if i % 2:
        from kd.dataset import load_pde
        with R.quiet():
            ctx = R.make_context(load_pde(group[0]), problem_name=name)
    else:
        with R.quiet():
            conf = SolverConfig(problem_name=name)
            ctx = ProblemContext(conf)
        u, x, t = np.asarray(conf.u), np.ravel(conf.x), np.ravel(conf.t)
        m.check(u.shape == (len(x), len(t)) and np.allclose(ctx.u, u) and np.allclose(ctx.coords_1d["x"], x) and np.allclose(ctx.coords_1d["t"], t),
                "builtin-data", f"{name} {u.shape}")
    m.check(ctx.config.has_ground_truth, "builtin-reference", name)
    if ctx.config.has_ground_truth:
        for lhs, rhs, n in ((ctx.left_side, ctx.right_side, "search grid"), (ctx.left_side_origin, ctx.right_side_origin, "original grid")):
            r2 = 1 - np.sum((lhs - rhs) ** 2) / np.sum(lhs ** 2)
            m.check(r2 > 0.95, "builtin-reference-holds", f"{name} {n}: {r2}")
        m.close(ctx.left_side_full, ctx.ut, "builtin-left-side", rtol=1e-12, msg=name)
    with R.quiet():
        m.raises(ValueError, lambda: SolverConfig(problem_name="nothing-known"), "unknown-problem-refused", "")
    m.saw("builtin")
    m.distinct(("builtin", name, i % 2))
