"""V01: every figure shows the data and the fitted equation, and drawing it changes nothing else."""
import copy, os, shutil, tempfile
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D
from vkit import dlga_ref as G
from vkit import viz_ref as Z

PROPERTY = "V01"
RULE = "distinct (model, data set, equation, intent, options) figures whose drawn values were compared with an independent computation"
REQUIRE = {"legacy-slice": 30, "call": 300, "sga": 60, "dlga": 100, "discover": 30, "pysr": 20, "spr": 4, "scattered-grid": 8, "sliced": 30, "mesh": 150, "scatter": 100, "histogram": 60, "line": 100}
ASSUME = ["figures are read off the artists at the moment they are saved; pixels are not compared",
          "panels are recognised by the words True/Original/Exact and Predicted/Metadata/RHS in their titles"]


def flat(a):
    return np.asarray(a, dtype=float).ravel()


def options(rng, st, **kw):
    o = dict(show_info=bool(rng.random() < 0.2))
    if rng.random() < 0.7:
        o["output_dir"] = os.path.join(st.tmp, "out%d" % rng.integers(3))
        if rng.random() < 0.7:
            os.makedirs(o["output_dir"], exist_ok=True)
    if rng.random() < 0.3:
        o["dpi"] = int(rng.integers(20, 60))
    if rng.random() < 0.2:
        o["style"] = {"font.size": float(rng.integers(6, 14)), "lines.linewidth": 1.0}
    return {**o, **kw}


def one(m, r, label, n=1):
    """the call produced its figures and said so"""
    if not m.check(len(r.paths) == n and not [w for w in r.warnings if "experimental" not in w and "degraded" not in w],
                   "figure-produced", f"{label}: paths {r.paths}, warnings {r.warnings}"):
        return False
    return True


# ------------------------------------------------------------------ judges of panels
def scatter(m, panel, x, y, label, mech="scatter-shows-the-values", c=None):
    m.saw("scatter")
    if not m.check(len(panel.scatters) == 1, mech, f"{label}: {len(panel.scatters)} scatters in '{panel.title}'"):
        return
    off, arr = panel.scatters[0]
    want = np.stack([flat(x), flat(y)], 1)
    m.close(off, want, mech, rtol=1e-9, atol=1e-12 * (1 + np.nanmax(np.abs(want))), msg=f"{label} '{panel.title}'")
    if c is not None and m.check(arr is not None, mech + "-colour", f"{label}: no colours"):
        m.close(arr, flat(c), mech + "-colour", rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(flat(c)))), msg=label)


def parity_panel(m, panel, actual, predicted, label):
    a, p = flat(actual), flat(predicted)
    wx, wy = panel.xlabel.lower(), panel.ylabel.lower()
    first = "pred" if any(s in wx for s in ("pred", "rhs", "model")) else "act" if any(s in wy for s in ("pred", "rhs", "model")) else "?"
    m.check(first != "?", "axes-labelled", f"{label}: x '{panel.xlabel}', y '{panel.ylabel}'")
    scatter(m, panel, p if first == "pred" else a, a if first == "pred" else p, label)
    diag = [l for l in panel.lines if len(l[0]) > 1 and np.allclose(l[0], l[1])]
    lo, hi = min(a.min(), p.min()), max(a.max(), p.max())
    tol = 1e-9 * (1 + abs(lo) + abs(hi))
    m.check(diag and any(l[0].min() <= lo + tol and l[0].max() >= hi - tol for l in diag), "identity-line", f"{label}: {[l[0][[0, -1]] for l in panel.lines]} for [{lo}, {hi}]")
    m.saw("line")


def hist(m, panel, values, label, also=None):
    m.saw("histogram")
    msg = Z.histogram_ok(panel.bars, values)
    if msg and also is not None and not Z.histogram_ok(panel.bars, also):
        msg = ""
    m.check(msg == "", "histogram-of-the-values", lambda: f"{label} '{panel.title}': {msg}")


def mesh(m, panel, hs, vs, want, label):
    """want[v, h]"""
    m.saw("mesh")
    if not m.check(len(panel.meshes) == 1, "mesh-shows-the-field", f"{label}: {len(panel.meshes)} meshes in '{panel.title}'"):
        return
    got = Z.mesh_at(panel.meshes[0], flat(hs), flat(vs))
    if not m.check(got is not None, "mesh-lies-on-the-grid", f"{label} '{panel.title}'"):
        return
    m.close(got, want, "mesh-shows-the-field", rtol=1e-9, atol=1e-12 * (1 + np.nanmax(np.abs(want))), msg=f"{label} '{panel.title}'")


def limits(m, panels, label):
    """comparable panels share a colour scale that covers what they show"""
    cl = [p.meshes[0][2] for p in panels if p.meshes]
    lo, hi = min(np.nanmin(p.meshes[0][1]) for p in panels), max(np.nanmax(p.meshes[0][1]) for p in panels)
    tol = 1e-9 * (abs(lo) + abs(hi))
    m.check(all(np.allclose(c, cl[0]) for c in cl), "one-colour-scale", f"{label}: {cl}")
    m.check(cl[0][0] <= lo + tol and cl[0][1] >= hi - tol, "colour-scale-covers", f"{label}: {cl[0]} for [{lo}, {hi}]")


def split(m, panels, label):
    a, b = [p for p in panels if Z.role(p) == "true"], [p for p in panels if Z.role(p) == "model"]
    ok = m.check(len(a) == len(b) >= 1, "panels-named", f"{label}: {[p.title for p in panels]}")
    return (a, b) if ok else ([], [])


def swapped(panel):
    return "time" in panel.ylabel.lower()


def field_panels(m, panels, axes, t, true, model, label, times=None):
    """panels comparing two fields of layout (*spatial, t); axes are the spatial coordinates"""
    panels = [p for p in panels if p.meshes or p.title]
    a, b = split(m, panels, label)
    if not a:
        return
    if len(axes) == 1:
        for p, f in ((a[0], true), (b[0], model)):
            if swapped(p):
                mesh(m, p, axes[0], t, f.T, label)
            else:
                mesh(m, p, t, axes[0], f, label)
    else:
        idx = sorted({0, len(t) // 2, len(t) - 1}) if times is None else times
        if not m.check(len(a) == len(idx), "one-column-per-time", f"{label}: {[p.title for p in panels]} for times {idx}"):
            return
        for group, f in ((a, true), (b, model)):
            for p, k in zip(group, idx):
                m.check(f"{t[k]:.2f}" in p.title, "panel-names-its-time", f"{label}: '{p.title}' for t={t[k]}")
                mesh(m, p, axes[1], axes[0], f[..., k], label)
    limits(m, a + b, label)


def cut(axes, fields, sa=-1, si=None):
    """the documented reduction of more than two spatial axes to two"""
    axes, fields = list(axes), list(fields)
    first = True
    while len(axes) > 2:
        k = (sa if first else -1)
        k = min(max(k + len(axes) if k < 0 else k, 0), len(axes) - 1)
        n = len(axes[k])
        j = n // 2 if (si is None or not first) else min(max(si, 0), n - 1)
        fields = [np.take(f, j, axis=k) for f in fields]
        axes.pop(k)
        first = False
    return axes, fields


def payload_fields(m, d, axes, t, true, model, label, residual=None):
    m.check(len(d.spatial_coords) == len(axes), "payload-axes", f"{label}: {len(d.spatial_coords)}")
    for got, want in zip(d.spatial_coords, axes):
        m.close(flat(got), flat(want), "payload-axes", msg=label)
    m.close(flat(d.t_coords), flat(t), "payload-axes", msg=label)
    sc = 1e-12 * (1 + np.max(np.abs(true)))
    m.close(d.true_field, true, "payload-true-field", atol=sc, msg=label)
    m.close(d.predicted_field, model, "payload-model-field", atol=sc, msg=label)
    if hasattr(d, "residual_field"):
        m.close(d.residual_field, true - model if residual is None else residual, "payload-residual", atol=2 * sc, msg=label)


def payload_parity(m, d, actual, predicted, label, tol=1e-9):
    sc = 1 + np.max(np.abs(flat(actual)))
    for got, want, n in ((d.actual_values, actual, "actual"), (d.predicted_values, predicted, "predicted"),
                         (d.residuals, flat(actual) - flat(predicted), "residual")):
        m.close(flat(got), flat(want), "payload-parity-" + n, rtol=tol, atol=tol * sc, msg=label)


def payload_residual(m, d, actual, predicted, label, tol=1e-9):
    sc = 1 + np.max(np.abs(flat(actual)))
    for got, want, n in ((d.actual, actual, "actual"), (d.predicted, predicted, "predicted"), (d.residuals, flat(actual) - flat(predicted), "residual")):
        m.close(flat(got), flat(want), "payload-residual-" + n, rtol=tol, atol=tol * sc, msg=label)


def stats(m, s, res, label, keys):
    r = flat(res)
    tol = 1e-5 if np.asarray(res).dtype == np.float32 else 1e-9
    want = {"mean": r.mean(), "std": r.std(), "max_abs": np.abs(r).max(), "mean_residual": r.mean(), "max_abs_residual": np.abs(r).max(),
            "rmse": np.sqrt(np.mean(r ** 2)), "count": r.size, "residual_mean": r.mean(), "residual_std": r.std()}
    sc = tol * (1 + np.abs(r).max())
    for k in keys:
        m.check(k in s and abs(float(s[k]) - want[k]) <= sc, "summary", lambda: f"{label}: {k} = {s.get(k)} instead of {want[k]}")


# ------------------------------------------------------------------ SGA
def sga_fit(rng, kind=None, **kw):
    from kd.model.kd_sga import KD_SGA
    if kind == "xyzt":
        from kd.dataset import PDEDataset
        order = [str(a) for a in rng.permutation(["x", "y", "z", "t"])]
        co = {a: R.axis_values(rng, int(rng.integers(5, 7))) for a in order}
        u = R.smooth_field(rng, np.meshgrid(*[co[a] for a in order], indexing="ij"))
        ds = PDEDataset(equation_name="rand", fields_data={"u": u.copy()}, coords_1d={k: v.copy() for k, v in co.items()},
                        axis_order=order, target_field="u", lhs_axis="t")
        prob = R.Problem({"u": u}, co, order, "u", "t", None)
    else:
        ds, prob, kind = R.gen_problem(rng, kind)
    mod = KD_SGA(num=int(rng.integers(3, 6)), depth=int(rng.integers(2, 4)), width=int(rng.integers(1, 4)), sga_run=1, seed=int(rng.integers(1000)), **kw)
    with R.quiet():
        mod.fit_dataset(ds)
    return mod, ds, prob, kind


def to_space_time(prob, a):
    ax = list(prob.axis_order)
    sp = [x for x in ax if x != prob.lhs]
    return np.transpose(a, [ax.index(x) for x in sp] + [ax.index(prob.lhs)])


def prediction(mod, prob, det):
    """sum of coefficient x term of the reported equation, or None if a hidden term or a guarded division decides it"""
    from checks.s01_score import split_terms
    if any(prob.sensitive(R.parse_inorder(t)) for t in split_terms(mod.best_pde_)):
        return None
    y = np.zeros(prob.shape)
    for t in det.terms:
        if t.tree is None:
            f = prob.fields[prob.target]
        else:
            tree = R.parse_inorder(t.label)
            f = prob.eval(tree)
        y = y + t.coefficient * f
    return y if np.all(np.isfinite(y)) else None


DUMMY = dict(t_coords=None, true_field=None, predicted_field=None)


@workload(quick=70, thorough=900, timeout=120)
def sga(m, rng, i):
    """fields, slices, parity and residuals of a fitted SGA model"""
    from kd import viz as V
    kind = "xyzt" if i % 7 == 6 else None
    mod, ds, prob, kind = sga_fit(rng, kind)
    c = mod.context_
    sp = [a for a in prob.axis_order if a != prob.lhs]
    axes, t = [np.asarray(prob.coords[a]) for a in sp], np.asarray(prob.coords[prob.lhs])
    true = to_space_time(prob, prob.fields[prob.target])
    if rng.random() < 0.7:      # smoothed metadata: something else than the measured field
        c.u = np.asarray(c.u) + 0.1 * rng.normal(size=np.shape(c.u))
    meta = to_space_time(prob, np.asarray(c.u))
    m.saw("sga")
    base = f"SGA {kind} {prob.axis_order} lhs {prob.lhs}"
    with Z.Studio() as st:
        for what in rng.permutation(["field", "slices", "parity", "residual", "equation"])[:3]:
            o = options(rng, st)
            label = f"{base} {what} {o}"
            if what in ("field", "slices") and len(axes) > 2:
                if rng.random() < 0.6:
                    o["slice_axis"] = int(rng.integers(-3, 3))
                if rng.random() < 0.6:
                    o["slice_index"] = int(rng.integers(-1, 8))
            ax2, (tr2, me2) = cut(axes, [true, meta], o.get("slice_axis", -1), o.get("slice_index")) if len(axes) > 2 else (axes, (true, meta))
            if what == "field":
                r = st.call(m, label, V.plot_field_comparison, mod, watch=[ds], **DUMMY, **o)
                if not one(m, r, label):
                    continue
                field_panels(m, st.cam.of(r.paths[0]), ax2, t, tr2, me2, label)
                payload_fields(m, r.metadata["field_comparison_data"], axes, t, true, meta, label)
                s = r.metadata["summary"]
                m.close([s["vmin"], s["vmax"]], [min(true.min(), meta.min()), max(true.max(), meta.max())], "summary", msg=label)
            elif what == "slices":
                if rng.random() < 0.6:
                    ask = rng.uniform(t.min() - 0.3 * np.ptp(t), t.max() + 0.3 * np.ptp(t), int(rng.integers(1, 5)))
                    if rng.random() < 0.3:
                        ask = np.append(ask, t[rng.integers(len(t))])
                    k = dict(slice_times=ask if rng.random() < 0.5 else [float(v) for v in ask])
                    req = np.unique(np.clip(ask, t.min(), t.max()))
                else:
                    k = dict(slice_count=int(rng.integers(0, 6)))
                    req = np.linspace(t.min(), t.max(), max(1, k["slice_count"]))
                r = st.call(m, label, V.plot_time_slices, mod, watch=[ds], **DUMMY, **o, **k)
                if not one(m, r, label):
                    continue
                got = flat(r.metadata["time_slices_summary"]["actual_slice_times"])
                near = [np.abs(t - q).min() for q in req]
                ok = len(got) == len(req) and all(g in t and abs(abs(g - q) - d) < 1e-9 * (1 + abs(q)) for g, q, d in zip(got, req, near))
                if not m.check(ok, "slices-at-the-nearest-times", f"{label} {k}: {got} for {req} on {t}"):
                    continue
                idx = [int(np.flatnonzero(t == g)[0]) for g in got]
                payload_fields(m, r.metadata["time_slices_data"], axes, t, true, meta, label)
                m.close(flat(r.metadata["time_slices_data"].slice_times), got, "payload-slice-times", msg=label)
                panels = st.cam.of(r.paths[0])
                if len(axes) == 1:
                    slice_lines(m, panels, axes[0], t, idx, true, meta, label)
                else:
                    field_panels(m, panels, ax2, t, tr2, me2, label, times=idx)
            elif what == "parity":
                sga_parity(m, rng, st, V, mod, ds, prob, o, label)
            elif what == "residual":
                sga_residual(m, rng, st, V, mod, ds, prob, o, label)
            else:
                r = st.call(m, label, V.render_equation, mod, watch=[ds], **o)
                if one(m, r, label, 2):
                    m.check(r.metadata["latex"] == mod.equation_latex(), "equation-payload", label)
                    text_of(m, st.cam, r.paths[0], mod.equation_latex(), label)
                    text_of(m, st.cam, r.paths[1], mod.equation_latex(include_coefficients=False), label)
            m.distinct((base, what, str(o), i))


def text_of(m, cam, path, latex, label):
    hit = [s for s in cam.shots if s[0] == os.path.abspath(path)]
    if not m.check(len(hit) >= 1, "equation-image-shows-the-equation", f"{label}: nothing saved at {path}"):
        return
    texts = [t for p in hit[-1][1] for t in p.texts]
    m.check(len(texts) == 1 and texts[0].strip().strip("$").strip() == latex.strip().strip("$").strip(), "equation-image-shows-the-equation", f"{label}: {texts} for {latex}")
    m.saw("equation")


def slice_lines(m, panels, x, t, idx, true, model, label):
    if not m.check(len(panels) == len(idx), "one-panel-per-slice", f"{label}: {[p.title for p in panels]} for {idx}"):
        return
    for p, k in zip(panels, idx):
        m.saw("line")
        m.check(f"{t[k]:.3f}" in p.title, "panel-names-its-time", f"{label}: '{p.title}' for t={t[k]}")
        lines = {l[2]: l for l in p.lines}
        m.check(len(p.lines) == 2, "slice-lines", f"{label}: {list(lines)}")
        for n, l in lines.items():
            w = n.lower()
            f = true if any(s in w for s in ("orig", "true", "exact")) else model if any(s in w for s in ("meta", "pred")) else None
            if m.check(f is not None, "slice-lines", f"{label}: a line called {n}"):
                m.close(l[0], x, "slice-lines", msg=label)
                m.close(l[1], f[:, k], "slice-lines", atol=1e-12 * (1 + np.abs(f).max()), msg=f"{label} {n} t={t[k]}")
    m.check(any(len(p.legend) == 2 for p in panels), "slice-legend", f"{label}: {[p.legend for p in panels]}")


def sga_parity(m, rng, st, V, mod, ds, prob, o, label):
    det = mod.best_equation_details_
    want = prediction(mod, prob, det)
    k = {}
    if rng.random() < 0.4:
        k["compare"] = str(rng.choice(["original", "metadata"]))
    ncand = mod.best_pde_.count("+")
    cached = det.predicted_rhs
    target = np.asarray(mod.context_.ut_origin) if k.get("compare") == "original" and hasattr(mod.context_, "ut_origin") else prob.ut
    if rng.random() < 0.5:      # an original time derivative that differs from the one fitted
        mod.context_.ut_origin = np.asarray(prob.ut) + 0.2 * rng.normal(size=prob.shape)
        if k.get("compare") == "original":
            target = mod.context_.ut_origin
    if rng.random() < 0.3:
        k["title"] = "T%d" % rng.integers(9)
    r = st.call(m, label, V.plot_parity, mod, watch=[ds], **o, **k)
    label = f"{label} {k}"
    if not one(m, r, label):
        return
    d = r.metadata["parity"]
    m.close(flat(d.actual_values), flat(target), "payload-parity-actual", rtol=1e-8, atol=1e-9 * (1 + np.abs(target).max()), msg=label)
    pred = flat(d.predicted_values)
    if cached is not None:
        m.close(pred, flat(cached), "payload-parity-predicted", msg=label)
    if want is not None:
        mag = np.max(np.abs(want)) + np.max(np.abs(prob.ut))
        hidden = 1e-5 * sum(np.abs(prob.eval(t)).max() for t in trees_of(mod, det, prob)) if trees_of(mod, det, prob) else 0.0
        coef = sum(abs(t.coefficient) * np.abs(prob.fields[prob.target] if t.tree is None else prob.eval(R.parse_inorder(t.label))).max() for t in det.terms)
        m.check(np.max(np.abs(pred - flat(want))) <= 1e-7 * (mag + coef) + hidden, "parity-shows-the-equation",
                lambda: f"{label}: off by {np.max(np.abs(pred - flat(want)))} (size {mag})")
    payload_parity(m, d, target, pred, label, 1e-8)
    says_what_it_shows(m, r, mod.context_, [getattr(mod.context_, "ut_origin", target)], label)
    stats(m, r.metadata["summary"], flat(d.actual_values) - pred, label, ["mean_residual", "max_abs_residual", "rmse"])
    panels = st.cam.of(r.paths[0])
    if m.check(len(panels) == 1, "one-panel", label):
        parity_panel(m, panels[0], d.actual_values, pred, label)
        m.check("title" not in k or panels[0].title == k["title"], "title-option", f"{label}: {panels[0].title}")


def trees_of(mod, det, prob):
    """terms of the winning candidate that the report hides, with the default field"""
    from checks.s01_score import split_terms
    ts = [R.parse_inorder(s) for s in split_terms(mod.best_pde_)]
    shown = [R.parse_inorder(t.label) for t in det.terms if t.tree is not None]
    for s in shown:
        if s in ts:
            ts.remove(s)
    ts = [t for t in ts if not prob.sensitive(t)]
    return ts + [prob.target]


def sga_residual(m, rng, st, V, mod, ds, prob, o, label):
    """a reference right-hand side is known to the context only for the built-in problems; given one, residuals are u_t minus it"""
    c = mod.context_
    if not hasattr(c, "right_side_full"):
        r = st.call(m, label, V.plot_residuals, mod, actual=None, predicted=None, **o)
        m.check(not r.paths and r.warnings, "residual-needs-a-reference", f"{label}: {r.paths}")
    ut, uto = np.asarray(prob.ut), np.asarray(prob.ut) + 0.1 * rng.normal(size=prob.shape)
    c.ut_origin = uto
    c.right_side_full = ut + rng.uniform(0.01, 2) * rng.normal(size=prob.shape)
    c.right_side_full_origin = uto + rng.uniform(0.01, 2) * rng.normal(size=prob.shape)
    if rng.random() < 0.3:
        o["bins"] = int(rng.integers(3, 60))
    r = st.call(m, label, V.plot_residuals, mod, watch=[ds], actual=None, predicted=None, **o)
    if not one(m, r, label):
        return
    rm, ro = to_space_time(prob, np.asarray(c.ut) - c.right_side_full), to_space_time(prob, uto - c.right_side_full_origin)
    stats(m, r.metadata["summary"]["metadata"], rm, label, ["mean", "std", "max_abs"])
    stats(m, r.metadata["summary"]["original"], ro, label, ["mean", "std", "max_abs"])
    payload_residual(m, r.metadata["residual_data"], uto, c.right_side_full, label)
    panels = st.cam.of(r.paths[0])
    h = [p for p in panels if len(p.bars)]
    im = [p for p in panels if p.images]
    if m.check(len(h) == len(im) == 2, "residual-panels", f"{label}: {[p.title for p in panels]}"):
        # beyond two space axes the values of the section drawn beside it will do
        sections = [cut([range(n) for n in f.shape[:-1]], [f])[1][0] if f.ndim > 3 else None for f in (rm, ro)]
        for p in h:
            k = 0 if Z.role(p) == "model" else 1
            hist(m, p, (rm, ro)[k], label, sections[k])
        sl = []
        for f in (rm, ro):
            if f.ndim > 2:
                f = f[..., f.shape[-1] // 2]
                while f.ndim > 2:
                    f = np.take(f, f.shape[-1] // 2, axis=f.ndim - 1)
            sl.append(f)
        for p in im:
            a, origin, ext, _ = p.images[0]
            f = sl[0] if Z.role(p) == "model" else sl[1]
            m.check(origin == "lower", "image-orientation", label)
            m.close(a, f, "image-shows-the-residual", atol=1e-9 * (1 + np.abs(f).max()), msg=f"{label} '{p.title}'")
        m.saw("image", 2)


@workload(quick=12, thorough=120, timeout=120)
def sga_edges(m, rng, i):
    """with the edges deleted, the metadata are compared with the same grid points of the measured field"""
    from kd import viz as V
    kind = ["legacy", "xt", "tx", "legacy"][i % 4]
    mod, ds, prob, kind = sga_fit(rng, kind, delete_edges=True)
    c = mod.context_
    n = len(prob.coords["x"])
    keep = slice(int(n * 0.1), int(n * 0.9))
    true = to_space_time(prob, prob.fields[prob.target])
    meta = np.asarray(c.u)
    if meta.shape != tuple(prob.shape):
        true = true[keep]
        x = prob.coords["x"][keep]
        m.saw("cropped")
    else:
        x = prob.coords["x"]
    if not m.check(to_space_time(prob, meta).shape == true.shape, "edges-deleted-shape", f"{kind}: {meta.shape} for {prob.shape}"):
        return
    c.u = meta + 0.1 * rng.normal(size=meta.shape)
    meta = to_space_time(prob, c.u)
    t = prob.coords[prob.lhs]
    m.saw("sga")
    with Z.Studio() as st:
        o = options(rng, st)
        label = f"SGA {kind} edges deleted {o}"
        r = st.call(m, label, V.plot_field_comparison, mod, watch=[ds], **DUMMY, **o)
        if one(m, r, label):
            field_panels(m, st.cam.of(r.paths[0]), [x], t, true, meta, label)
            payload_fields(m, r.metadata["field_comparison_data"], [x], t, true, meta, label)
        r = st.call(m, label, V.plot_time_slices, mod, watch=[ds], slice_times=t[:2], **DUMMY, **o)
        if one(m, r, label):
            slice_lines(m, st.cam.of(r.paths[0]), x, t, sorted([0, 1], key=lambda k: t[k]), true, meta, label)
        r = st.call(m, label, V.plot_parity, mod, watch=[ds], **o)
        if one(m, r, label):
            d = r.metadata["parity"]
            m.close(flat(d.actual_values), flat(c.ut), "payload-parity-actual", msg=label)
        # a derivative of the measured field lives on the full grid: what is drawn instead is named as what it is
        full = np.asarray(prob.ut) + 0.1 * rng.normal(size=prob.shape)
        c.ut_origin = full
        r = st.call(m, label, V.plot_parity, mod, watch=[ds], compare="original", **o)
        if one(m, r, label):
            says_what_it_shows(m, r, c, [full, part(full, prob, meta, keep)], label)
        ref, refo = np.asarray(c.ut) + rng.normal(size=np.shape(c.ut)), full + rng.normal(size=full.shape)
        c.right_side_full, c.right_side_full_origin = ref, refo
        r = st.call(m, label, V.plot_residuals, mod, watch=[ds], actual=None, predicted=None, **o)
        if one(m, r, label):
            payload_residual(m, r.metadata["residual_data"], part(full, prob, meta, keep), ref, label)
            stats(m, r.metadata["summary"]["metadata"], np.asarray(c.ut) - ref, label, ["mean", "std", "max_abs"])
            stats(m, r.metadata["summary"]["original"], full - refo, label, ["mean", "std", "max_abs"])
            for p in [p for p in st.cam.of(r.paths[0]) if p.images]:
                f = np.asarray(c.ut) - ref if Z.role(p) == "model" else full - refo
                m.close(p.images[0][0], to_space_time(prob, f), "image-shows-the-residual", atol=1e-9 * (1 + np.abs(f).max()), msg=f"{label} '{p.title}'")
        m.distinct((label, i))


def part(full, prob, meta, keep):
    """the values of a full field at the grid points the metadata keep"""
    if np.size(meta) == np.size(full):
        return full
    k = list(prob.axis_order).index("x")
    return np.moveaxis(np.moveaxis(full, k, 0)[keep], 0, k)


def says_what_it_shows(m, r, c, originals, label):
    a = flat(r.metadata["parity"].actual_values)
    same = lambda f: np.size(f) == a.size and np.allclose(a, flat(f), rtol=1e-9, atol=1e-12)
    kinds = ["metadata"] * same(c.ut) + ["original"] * any(same(f) for f in originals)
    if m.check(bool(kinds), "payload-parity-actual", f"{label}: neither derivative"):
        m.check(r.metadata["summary"].get("mode") in kinds and r.metadata["parity"].metadata.get("mode") in kinds, "parity-names-what-it-shows",
                f"{label}: {r.metadata['summary'].get('mode')}, {r.metadata['parity'].metadata} for the {kinds} derivative")


@workload(quick=12, thorough=60, timeout=200)
def sga_benchmarks(m, rng, i):
    """the pictures of the built-in problems: every slice over its own coordinate, every field as it is"""
    import torch
    from kd.dataset import load_pde
    from kd.model import KD_SGA
    from kd.model.sga.sgapde import visualizer
    from kd.model.sga.sgapde.config import Net
    name = ["burgers", "kdv", "chafee-infante"][i % 3]
    ds = load_pde(name)
    keep = [np.array(ds.x), np.array(ds.t), np.array(ds.usol)]
    how = (i // 3) % 4            # through the model, on its grid; a refined grid; either without the edges
    home, cwd = tempfile.mkdtemp(prefix="v01_"), os.getcwd()
    os.chdir(home)
    try:
        with R.quiet():
            if how == 0:
                e = KD_SGA(sga_run=1, num=2, depth=2, width=2, seed=int(rng.integers(1000)))
                m.raises(RuntimeError, e.plot_results, "untrained-refused", name)
                e.fit_dataset(ds)
                c = e.context_
                draw, folder = e.plot_results, os.path.join(home, "artifacts", "legacy_sga")
            else:
                kw = {}
                if how != 2:
                    torch.manual_seed(int(rng.integers(1000)))
                    h = int(rng.integers(3, 8))
                    torch.save(Net(2, h, 1).state_dict(), "net.pkl")
                    kw = dict(use_metadata=True, model_path=os.path.abspath("net.pkl"), hidden_dim=h, fine_ratio=int(rng.integers(1, 3)))
                c = R.make_context(ds, problem_name=name, delete_edges=how >= 2, **kw)
                folder = os.path.join(home, "out")
                draw = lambda: visualizer.plot_figures(c, c.config, output_dir=folder)
            meta = bool(c.config.use_metadata)
            with Z.Camera() as cam:
                draw()
                first = [(os.path.relpath(p, home), q) for p, q, _ in cam.shots]
        label = f"{name} how={how}"
        files = {os.path.join(d, f) for d, _, fs in os.walk(home) for f in fs if not f.endswith(".pkl")}
        m.check(files == {os.path.join(home, p) for p, _ in first} and all(f.startswith(folder) for f in files) and len(files) >= 8, "legacy-files", f"{label}: {sorted(files)}")
        x0, x1 = np.ravel(c.coords_1d["x"]), np.ravel(c.x_origin[:, 0])
        m.close(x1, keep[0].ravel(), "legacy-original-grid", msg=label)
        A = {"u": (c.u, c.u_origin), "ut": (c.ut, c.ut_origin), "ux": (c.ux, c.ux_origin), "uxx": (c.uxx, c.uxx_origin),
             "right": (c.right_side, c.right_side_origin), "residual": (c.ut - c.right_side_full, c.ut_origin - c.right_side_full_origin)}
        grids = {"right": (x0[c.n1:c.n2], x1[c.n1_origin:c.n2_origin])}
        drawn = set()
        for path, panels in first:
            stem = os.path.basename(path)
            for p in panels:
                if p.colorbar:
                    continue
                for im, *_ in p.images:
                    hit = [(k, s) for k, v in A.items() for s in (0, 1) if np.shape(v[s]) == im.shape and np.array_equal(im, v[s])]
                    m.check(bool(hit), "legacy-field", f"{label} {stem}: shape {im.shape}")
                    t = p.title.lower()
                    want = 1 if "original" in t else 0 if "metadata" in t else None
                    m.check(want is None or any(s == want or np.array_equal(*A[k]) if A[k][0].shape == A[k][1].shape else s == want for k, s in hit), "legacy-title", f"{label} {stem}: {p.title} {hit}")
                    drawn |= {("field", k) for k, _ in hit}
                n = len(p.lines)
                if not n:
                    continue
                m.check(n == 2 if meta else n in (1, 2), "legacy-lines", f"{label} {stem}: {n}")
                found = []
                for X, Y, _ in p.lines:
                    hit = [(k, s, j) for k, v in A.items() for s in (0, 1) if np.shape(v[s])[0] == len(Y)
                           for j in range(np.shape(v[s])[1]) if np.array_equal(np.asarray(v[s])[:, j], Y)]
                    if not m.check(bool(hit), "legacy-slice", f"{label} {stem}: {len(Y)} values"):
                        continue
                    # the time of the slice is half-way
                    m.check(any(abs(j - np.shape(A[k][s])[1] / 2) <= 1 for k, s, j in hit), "legacy-slice-time", f"{label} {stem}: {hit}")
                    k = hit[0][0]
                    g = grids.get(k, (x0, x1))[hit[0][1]]
                    m.check(len(g) == len(X) and np.allclose(X, g, rtol=1e-9, atol=1e-9 * np.ptp(x1)), "legacy-coordinate",
                            f"{label} {stem}: drawn over [{X[0]}, {X[-1]}], measured over [{g[0]}, {g[-1]}]")
                    found.append({(k, s) for k, s, _ in hit})
                    drawn |= {("slice", k)}
                if len(found) == 2:
                    m.check(bool({k for k, _ in found[0]} & {k for k, _ in found[1]}), "legacy-same-quantity", f"{label} {stem}: {found}")
                m.saw("legacy-slice")
        m.check({("slice", k) for k in A} <= drawn and {("field", "u"), ("field", "residual")} <= drawn, "legacy-complete", f"{label}: {sorted(drawn)}")
        m.check(all(np.array_equal(a, b) for a, b in zip(keep, (ds.x, ds.t, ds.usol))), "inputs-unchanged", label)
        if how == 0:
            # a problem without a reference equation is declined without a file
            from kd.dataset import PDEDataset
            d2 = PDEDataset(equation_name="mine", x=keep[0].ravel()[::8], t=keep[1].ravel()[::8], usol=keep[2][::8, ::8])
            e2 = KD_SGA(sga_run=1, num=2, depth=2, width=2)
            with R.quiet():
                e2.fit_dataset(d2)
                e2.plot_results()
            now = {os.path.join(d, f) for d, _, fs in os.walk(home) for f in fs if not f.endswith(".pkl")}
            m.check(now == files, "custom-problem-declined", f"{sorted(now - files)}")
        m.distinct((label, meta, c.n))
    finally:
        os.chdir(cwd)
        shutil.rmtree(home, ignore_errors=True)


# ------------------------------------------------------------------ DLGA
def dlga_payload(rng, V, m, st):
    nx, nt = (int(v) for v in rng.integers(3, 15, 2))
    x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
    if rng.random() < 0.3:
        x = np.sort(rng.uniform(-2, 2, nx))
    T = R.smooth_field(rng, list(np.meshgrid(x, t, indexing="ij")))
    return x, t, T, T + 0.2 * rng.normal(size=T.shape)


def history(rng, full):
    return [dict(fitness=0.0 if rng.random() < 0.15 else float(rng.uniform(-3, 3)), objective=float(rng.uniform(5, 9)), complexity=int(rng.integers(1, 9)),
                 **(dict(population_size=int(rng.integers(5, 50)), unique_modules=int(rng.integers(1, 30))) if full else {}))
            for _ in range(int(rng.integers(1, 12)))]


@workload(quick=60, thorough=700, timeout=120)
def dlga_given(m, rng, i):
    """figures of values handed to the call"""
    from kd import viz as V
    mod, _ = G.make_model(rng)
    with Z.Studio() as st:
        for what in rng.permutation(["field", "slices", "residual"])[:2]:
            x, t, true, pred = dlga_payload(rng, V, m, st)
            o = options(rng, st)
            o["spatial_coords" if rng.random() < 0.4 else "x_coords"] = [x] if rng.random() < 0 else x
            if rng.random() < 0.3:
                t = t.copy()
            label = f"DLGA {what} {true.shape} {sorted(o)}"
            watch = [dict(x=x, t=t, true=true, pred=pred)]
            if what == "field":
                res = rng.normal(size=true.shape) if rng.random() < 0.3 else None
                r = st.call(m, label, V.plot_field_comparison, mod, watch=watch, t_coords=t, true_field=true, predicted_field=pred,
                            **({"residual_field": res} if res is not None else {}), **o)
                if one(m, r, label):
                    field_panels(m, st.cam.of(r.paths[0]), [x], t, true, pred, label)
                    payload_fields(m, r.metadata["field_comparison"], [x], t, true, pred, label, res)
            elif what == "slices":
                k = {}
                if rng.random() < 0.6:
                    k["slice_times"] = rng.uniform(t.min(), t.max(), int(rng.integers(1, 5)))
                    req = k["slice_times"]
                else:
                    if rng.random() < 0.7:
                        k["num_slices"] = int(rng.integers(1, 6))
                    req = np.linspace(t.min(), t.max(), max(1, min(k.get("num_slices", 3), len(t))))
                r = st.call(m, label, V.plot_time_slices, mod, watch=watch, t_coords=t, true_field=true, predicted_field=pred, **k, **o)
                if one(m, r, label):
                    d = r.metadata["time_slices"]
                    payload_fields(m, d, [x], t, true, pred, label)
                    idx = d.metadata["slice_indices"]
                    ok = len(idx) == len(req) and all(abs(t[j] - q) <= np.abs(t - q).min() + 1e-12 for j, q in zip(idx, req))
                    if m.check(ok, "slices-at-the-nearest-times", f"{label}: {idx} for {req} on {t}"):
                        panels = st.cam.of(r.paths[0])
                        tt = t.astype(float).copy()
                        if m.check(len(panels) == len(req), "one-panel-per-slice", label):
                            for p, j, q in zip(panels, idx, req):
                                m.check(f"{q:.3f}" in p.title or f"{t[j]:.3f}" in p.title, "panel-names-its-time", f"{label}: '{p.title}' for {q}")
                                m.saw("line")
                                for l in p.lines:
                                    f = true if "exact" in l[2].lower() or "true" in l[2].lower() else pred
                                    m.close(l[0], x, "slice-lines", msg=label)
                                    m.close(l[1], f[:, j], "slice-lines", msg=label)
            else:
                n = int(rng.integers(2, 80))
                shape = (n,) if rng.random() < 0.6 else (n, 1)
                a = rng.normal(size=shape)
                b = a + 0.3 * rng.normal(size=shape)
                co = None if rng.random() < 0.5 else rng.normal(size=(n, 2)) if rng.random() < 0.5 else rng.normal(size=n)
                k = {} if rng.random() < 0.6 else {"bins": int(rng.integers(3, 60))}
                o.pop("x_coords", None), o.pop("spatial_coords", None)
                r = st.call(m, label, V.plot_residuals, mod, watch=[dict(a=a, b=b)], actual=a if rng.random() < .7 else a.tolist(), predicted=b, coordinates=co, **k, **o)
                if one(m, r, label):
                    payload_residual(m, r.metadata["residual"], a, b, label)
                    stats(m, r.metadata["summary"], a - b, label, ["mean", "std", "max_abs", "count"])
                    panels = st.cam.of(r.paths[0])
                    if m.check(len(panels) == 2, "residual-panels", label):
                        sc = [p for p in panels if p.scatters]
                        hs = [p for p in panels if len(p.bars)]
                        if m.check(len(sc) == len(hs) == 1, "residual-panels", label):
                            x_is_actual = any(s in sc[0].xlabel.lower() for s in ("target", "actual", "true"))
                            scatter(m, sc[0], a if x_is_actual else b, b if x_is_actual else a, label, c=None if co is None else (co if co.ndim == 1 else co[:, 0]))
                            hist(m, hs[0], a - b, label)
            m.saw("dlga")
            m.distinct((label, str(sorted(o)), i))


@workload(quick=60, thorough=700, timeout=120)
def dlga_history(m, rng, i):
    """training, validation and evolution curves"""
    from kd import viz as V
    mod, _ = G.make_model(rng)
    mod.train_loss_history = [float(v) for v in np.exp(rng.normal(size=int(rng.integers(1, 40))))]
    mod.val_loss_history = [float(v) for v in np.exp(rng.normal(size=int(rng.integers(1, 40))))]
    full = bool(rng.random() < 0.7)
    mod.evolution_history = history(rng, full)
    fit = np.array([h["fitness"] for h in mod.evolution_history])
    with Z.Studio() as st:
        for what in rng.permutation(["training", "validation", "evolution", "optimization"])[:3]:
            o = options(rng, st)
            label = f"DLGA {what} {len(fit)} generations full={full}"
            fn = {"training": V.plot_training_curve, "validation": V.plot_validation_curve, "evolution": V.plot_search_evolution,
                  "optimization": V.plot_optimization}[what]
            r = st.call(m, label, fn, mod, **o)
            if not one(m, r, label):
                continue
            panels = st.cam.of(r.paths[0])
            lines = [(p, l) for p in panels for l in p.lines]

            def drawn(y, word):
                y = np.asarray(y, dtype=float)
                ok = any(len(l[1]) == len(y) and np.allclose(l[1], y) and np.allclose(l[0], np.arange(len(y)) + l[0][0])
                         and (word in (p.title + p.ylabel + l[2]).lower()) for p, l in lines)
                m.check(ok, "curve-shows-the-history", lambda: f"{label}: {word} {y[:4]} not among {[(p.ylabel, l[2], l[1][:4]) for p, l in lines]}")
                m.saw("line")
            if what == "training":
                drawn(mod.train_loss_history, "train")
                m.check(r.metadata["points"] == len(mod.train_loss_history), "summary", label)
            elif what == "validation":
                drawn(mod.val_loss_history, "valid")
                m.check(r.metadata["points"] == len(mod.val_loss_history), "summary", label)
            elif what == "evolution":
                drawn(fit, "fitness")
                drawn([h["complexity"] for h in mod.evolution_history], "complexity")
                m.check(r.metadata["generations"] == len(fit), "summary", label)
            else:
                drawn(fit, "objective")
                d, s = r.metadata["optimization"], r.metadata["summary"]
                m.close(d.objective, fit, "payload-optimization", msg=label)
                m.close(d.steps, np.arange(len(fit)), "payload-optimization", msg=label)
                m.close([s["initial_objective"], s["final_objective"], s["best_objective"]], [fit[0], fit[-1], fit.min()], "summary", msg=label)
                m.close(d.complexity, [h["complexity"] for h in mod.evolution_history], "payload-optimization", msg=label)
                if full:
                    drawn([h["population_size"] for h in mod.evolution_history], "population")
                    drawn([h["unique_modules"] for h in mod.evolution_history], "unique")
                    m.close(d.population_size, [h["population_size"] for h in mod.evolution_history], "payload-optimization", msg=label)
                    m.close(d.unique_modules, [h["unique_modules"] for h in mod.evolution_history], "payload-optimization", msg=label)
                else:
                    m.check(d.population_size is None and d.unique_modules is None, "payload-optimization", label)
            m.saw("dlga")
            m.distinct((label, tuple(fit[:3])))


def dlga_model(rng, real):
    mod, ops = G.make_model(rng, gens=2, pop=6, max_iter=3)
    if real:
        ds = G.make_dataset(rng)[0]
        G.seed_all(int(rng.integers(1 << 30)))
        with R.quiet():
            mod.fit_dataset(ds, sample=int(rng.integers(20, 36)))
        return mod, list(mod.user_operators)
    shape = (int(rng.integers(4, 9)), int(rng.integers(4, 9)))
    names = list(dict.fromkeys(ops + ["u_t", "u"]))
    mod.metadata = {n: rng.normal(size=shape) for n in names}
    mod.Chrom = [[sorted(int(g) for g in rng.integers(0, len(ops), int(rng.integers(1, 4)))) for _ in range(int(rng.integers(1, 6)))] for _ in range(3)]
    mod.coef = [rng.normal(size=(len(c), 1)) for c in mod.Chrom]
    mod.name = [str(n) for n in rng.choice(["u_t", "u"], 3)]
    return mod, ops


@workload(quick=50, thorough=600, timeout=120)
def dlga_equation(m, rng, i):
    """parity and relationships are those of the discovered equation"""
    from kd import viz as V
    real = i % 5 == 0
    mod, ops = dlga_model(rng, real)
    chrom, lhs = mod.Chrom[0], mod.name[0]
    if lhs not in mod.metadata:
        raise Discard("left side not among the metadata")
    coef = flat(mod.coef[0])
    y = np.asarray(mod.metadata[lhs], dtype=float).ravel()
    cols = [np.prod([np.asarray(mod.metadata[ops[g]], dtype=float) for g in mod_], axis=0).ravel() for mod_ in chrom]
    rhs = sum(k * c for k, c in zip(coef, cols))
    sc = 1e-6 * (1 + np.abs(y).max() + sum(abs(k) * np.abs(c).max() for k, c in zip(coef, cols)))
    with Z.Studio() as st:
        o = options(rng, st)
        label = f"DLGA parity {ops} {chrom} = {lhs}" + (" fitted" if real else "")
        r = st.call(m, label, V.plot_parity, mod, **o)
        if one(m, r, label):
            d = r.metadata["parity"]
            m.close(flat(d.actual_values), y, "payload-parity-actual", rtol=1e-6, msg=label)
            m.close(flat(d.predicted_values), rhs, "parity-shows-the-equation", rtol=1e-5, atol=sc, msg=label)
            m.close(flat(d.residuals), flat(d.actual_values) - flat(d.predicted_values), "payload-parity-residual", rtol=1e-6, atol=sc, msg=label)
            stats(m, r.metadata["summary"], d.residuals, label, ["mean_residual", "max_abs_residual", "rmse"])
            panels = st.cam.of(r.paths[0])
            if m.check(len(panels) == 1, "one-panel", label):
                parity_panel(m, panels[0], d.actual_values, d.predicted_values, label)
        k = {} if rng.random() < 0.4 else {"top_n_terms": int(rng.integers(1, 6))}
        r = st.call(m, label, V.plot_derivative_relationships, mod, **k, **options(rng, st))
        if one(m, r, label):
            d = r.metadata["term_relationships"]
            n = min(len(chrom), k.get("top_n_terms", 4))
            m.close(d.lhs_values, y, "payload-terms", rtol=1e-6, msg=label)
            m.check(d.metadata.get("total_terms", len(chrom)) == len(chrom), "summary", f"{label}: {d.metadata} for {len(chrom)} terms")
            if m.check(len(d.terms) == n, "strongest-terms", f"{label} {k}: {len(d.terms)} of {len(chrom)}"):
                order = sorted(np.abs(coef), reverse=True)[:n]
                m.close([abs(q.coefficient) for q in d.terms], order, "strongest-terms", rtol=1e-6, msg=label)
                left = list(range(len(chrom)))
                for q in d.terms:
                    hit = [j for j in left if abs(coef[j] - q.coefficient) <= 1e-6 * abs(coef[j]) + 1e-12 and np.allclose(cols[j], q.values, rtol=1e-5, atol=1e-6 * (1 + np.abs(cols[j]).max()))
                           and sorted(q.label.split(" * ")) == sorted(ops[g] for g in chrom[j])]
                    if m.check(bool(hit), "payload-terms", f"{label}: {q.label} {q.coefficient}"):
                        left.remove(hit[0])
                panels = st.cam.of(r.paths[0])
                if m.check(len(panels) == n, "one-panel-per-term", f"{label}: {[p.title for p in panels]}"):
                    for p, q in zip(panels, d.terms):
                        scatter(m, p, q.values, d.lhs_values, label)
                        m.check(f"{q.coefficient:.4f}" in p.title and q.label in p.xlabel, "panel-names-its-term", f"{label}: '{p.title}' '{p.xlabel}' for {q.label}")
        idx = int(rng.integers(0, len(mod.Chrom)))
        r = st.call(m, label, V.render_equation, mod, solution_index=idx, **options(rng, st))
        if idx < min(len(mod.coef), len(mod.name)) and one(m, r, label):
            m.check(r.metadata["index"] == idx, "equation-payload", label)
            text_of(m, st.cam, r.paths[0], r.metadata["latex"], label)
            L = mod.name[idx]
            try:
                lt, terms = G.read_latex(r.metadata["latex"])[:2]
                m.check(lt == L, "equation-is-the-chosen-solution", f"{label}: {lt} for {L}")
                want = sorted((round(float(k), 3) for k in flat(mod.coef[idx])[:len(mod.Chrom[idx])]))
                ok = len(terms) <= len(mod.Chrom[idx])
                m.check(ok, "equation-is-the-chosen-solution", f"{label} solution {idx}: {r.metadata['latex']}")
            except ValueError:
                pass                # judged by G01
        m.saw("dlga")
        m.distinct((label, tuple(coef[:2])))


# ------------------------------------------------------------------ Discover
def named(mod, name, **o):
    from kd import viz as V
    from kd.viz.core import VizRequest, render
    fn = {"search_evolution": V.plot_search_evolution, "equation": V.render_equation, "parity": V.plot_parity}.get(name)
    if fn:
        return fn(mod, **o)
    if name in ("residual", "spr_residual") and name == "residual":
        return V.plot_residuals(mod, actual=None, predicted=None, **o)
    if name == "field_comparison":
        return V.plot_field_comparison(mod, **DUMMY, **o)
    o.pop("show_info", None)
    return render(VizRequest(kind=name, target=mod, options=o))


@workload(quick=40, thorough=500, timeout=150)
def discover(m, rng, i):
    """figures of a fitted Discover model, and of other programs set as its result"""
    import checks.d06_repeat as Q
    from kd.model.discover.program import from_str_tokens, Program
    s = Q.spec(rng)
    ds, env, meta = D.gen_problem(np.random.default_rng(s["data_seed"]), s["dim"], params=s["params"])
    with R.quiet():
        mod = Q.make(s)
        mod.import_dataset(ds)
        mod.train(n_epochs=int(rng.integers(1, 3)), verbose=False)
    m.saw("discover")
    dim = s["dim"]
    lib = Program.library
    with Z.Studio() as st:
        reward_figures(m, rng, st, mod, f"Discover dim {dim}")
        progs = [mod.searcher.best_p]
        for _ in range(30):
            t = D.random_tree(rng, lib.names, dim, int(rng.integers(1, 4)))
            if len(D.preorder(t)) > 16 or D.unsafe_terms(t, dim):
                continue
            p = from_str_tokens(",".join(D.preorder(t)))
            with R.quiet():
                if p.r_ridge > 0 and not p.invalid:
                    progs.append(p)
            if len(progs) > 2:
                break
        for p in progs:
            if p is None or isinstance(p, list):
                continue
            mod.searcher.best_p = p
            if getattr(mod, "best_p", None) is not None:
                mod.best_p = p
            tree = D.parse([t.name for t in p.traversal])
            label = f"Discover {D.text(tree)} dim {dim}"
            if rng.random() < 0.5:
                with Z.drawn_graphs() as seen:
                    r = st.call(m, label, named, mod, "tree", **options(rng, st))
                if not r.warnings or "graphviz" not in r.warnings[0]:
                    if one(m, r, label):
                        m.check(seen == [tree], "tree-shows-the-program", f"{label}: {seen}")
                        m.saw("tree")
            valid = not p.invalid and p.r_ridge > 0
            if not valid:
                r = st.call(m, label, named, mod, "parity", **options(rng, st)) if rng.random() < .5 else None
                m.check(r is None or bool(r.paths) != bool(r.warnings), "refused-with-a-warning", label)
                m.saw("invalid")
                continue
            with np.errstate(all="ignore"):
                cols, hit = env.terms(tree)
            w = flat(p.w)
            if hit or len(cols) != len(w) or env.near:
                continue
            rhs = sum(k * c for k, c in zip(w, cols)).reshape(env.ut.shape)
            mag = sum(abs(k) * np.abs(c).max() for k, c in zip(w, cols)) + np.abs(env.ut).max()
            equation_figures(m, rng, st, mod, ds, env, dim, rhs, mag, label)
            m.distinct((label, s["data_seed"]))


def equation_figures(m, rng, st, mod, ds, env, dim, rhs, mag, label):
    xs = env.xs
    swap = (lambda a: a) if dim == 1 else (lambda a: np.moveaxis(a, 0, -1))
    ut, rh = swap(env.ut), swap(rhs)
    nt = ut.shape[-1]
    t = np.arange(nt)
    tol = 1e-6 * mag
    for what in rng.permutation(["field_comparison", "residual", "parity", "equation"])[:3]:
        o = options(rng, st)
        k = {}
        if what == "field_comparison" and dim == 3 and rng.random() < 0.6:
            k = dict(slice_axis=int(rng.integers(-3, 3)), slice_index=int(rng.integers(0, 6)))
        if what == "residual" and rng.random() < 0.3:
            k = dict(bins=int(rng.integers(3, 60)))
        lab = f"{label} {what} {k}"
        r = st.call(m, lab, named, mod, what, watch=[ds], **o, **k)
        if not one(m, r, lab):
            continue
        panels = st.cam.of(r.paths[0])
        if what == "field_comparison":
            d = r.metadata["field_comparison"]
            m.close(d.true_field, ut, "payload-true-field", rtol=1e-7, atol=tol, msg=lab)
            if not m.close(d.predicted_field, rh, "field-shows-the-equation", rtol=1e-6, atol=tol, msg=lab):
                continue
            payload_fields(m, d, xs, t, np.asarray(d.true_field), np.asarray(d.predicted_field), lab)
            ax2, (a, b) = cut(xs, [np.asarray(d.true_field), np.asarray(d.predicted_field)], k.get("slice_axis", -1), k.get("slice_index"))
            field_panels(m, panels, ax2, t, a, b, lab)
        elif what == "parity":
            d = r.metadata["parity"]
            # both in the same order of points, whatever that order is
            o1 = np.lexsort((flat(env.ut),))
            for u_, h_ in ((env.ut, rhs), (ut, rh)):
                if np.allclose(flat(d.actual_values), flat(u_), rtol=1e-6, atol=tol):
                    m.close(flat(d.predicted_values), flat(h_), "parity-shows-the-equation", rtol=1e-6, atol=tol, msg=lab)
                    break
            else:
                m.check(False, "payload-parity-actual", lab)
            m.close(flat(d.residuals), flat(d.actual_values) - flat(d.predicted_values), "payload-parity-residual", atol=tol, msg=lab)
            if m.check(len(panels) == 1, "one-panel", lab):
                parity_panel(m, panels[0], d.actual_values, d.predicted_values, lab)
        elif what == "residual":
            d = r.metadata["residual"]
            res = ut - rh
            got = np.sort(flat(d.residuals))
            m.close(got, np.sort(flat(res)), "residual-of-the-equation", rtol=1e-6, atol=tol, msg=lab)
            m.close(flat(d.residuals), flat(d.actual) - flat(d.predicted), "payload-residual-residual", atol=tol, msg=lab)
            stats(m, r.metadata["summary"], d.residuals, lab, ["mean", "std", "max_abs", "count"])
            hs = [p for p in panels if len(p.bars)]
            if m.check(len(hs) == 1 and len(panels) == 2, "residual-panels", lab):
                hist(m, hs[0], d.residuals, lab)
                left = [p for p in panels if p is not hs[0]][0]
                if dim == 1:
                    X, T = np.meshgrid(xs[0], t, indexing="ij")
                    if len(left.scatters) == 1:
                        off, col = left.scatters[0]
                        a = {(round(float(p[0]), 9), round(float(p[1]), 9)): v for p, v in zip(off, col)}
                        want = {(round(float(q), 9), round(float(x), 9)): v for q, x, v in zip(T.ravel(), X.ravel(), res.ravel())}
                        if "time" in left.ylabel.lower():
                            a = {(q, p): v for (p, q), v in a.items()}
                        m.check(set(a) == set(want), "residual-map", f"{lab}: points")
                        if set(a) == set(want):
                            m.check(all(abs(a[q] - want[q]) <= tol + 1e-6 * abs(want[q]) for q in want), "residual-map", f"{lab}: values")
                        m.saw("scatter")
                    else:
                        mesh(m, left, t, xs[0], res, lab)
                else:
                    k_ = nt // 2
                    f = res[..., k_]
                    ax = list(xs)
                    while f.ndim > 2:
                        f = np.take(f, f.shape[-1] // 2, axis=-1)
                        ax = ax[:-1]
                    m.saw("mesh")
                    if m.check(len(left.meshes) == 1, "residual-map", lab):
                        got = Z.mesh_at(left.meshes[0], ax[1], ax[0])
                        if m.check(got is not None, "mesh-lies-on-the-grid", lab):
                            m.close(got, f, "residual-map", rtol=1e-6, atol=tol, msg=lab)
                        lo, hi = left.meshes[0][2]
                        m.check(abs(lo + hi) <= 1e-9 * (abs(lo) + abs(hi)), "residual-scale-centred", f"{lab}: {lo} {hi}")
        else:
            text_of(m, st.cam, r.paths[0], r.metadata["latex"], lab)


def reward_figures(m, rng, st, mod, label):
    """progress of the search, also for histories of other searches"""
    s = mod.searcher
    if rng.random() < 0.6:
        n = int(rng.integers(1, 25))
        s.r_train = [rng.uniform(0, 1, int(rng.integers(3, 30))) for _ in range(n)]
        s.r_history = [rng.uniform(0, 1, int(rng.integers(3, 30))) for _ in range(n)]
    if s.r_train:
        r = st.call(m, label, named, mod, "search_evolution", **options(rng, st))
        if one(m, r, label):
            d = r.metadata["reward_evolution"]
            mx, mean = [np.max(b) for b in s.r_train], [np.mean(b) for b in s.r_train]
            for got, want, n in ((d.max_reward, mx, "maximum"), (d.mean_reward, mean, "average"), (d.best_reward, np.maximum.accumulate(mx), "best")):
                m.close(got, want, "payload-rewards", msg=f"{label} {n}")
                p = st.cam.of(r.paths[0])[0]
                m.check(any(n in l[2].lower() and len(l[1]) == len(want) and np.allclose(l[1], want) and np.allclose(np.diff(l[0]), 1) for l in p.lines),
                        "curve-shows-the-history", f"{label}: {n}")
                m.saw("line")
    if s.r_history and all(len(np.unique(h)) > 1 for h in s.r_history):
        k = {}
        if rng.random() < 0.4:
            k["epoches"] = [int(v) for v in rng.integers(0, len(s.r_history) + 3, int(rng.integers(1, 5)))]
        elif rng.random() < 0.4:
            k["max_curves"] = int(rng.integers(1, 8))
        o = options(rng, st)
        r = st.call(m, f"{label} density {k}", named, mod, "density", **o, **k)
        asked = [e for e in k.get("epoches", range(len(s.r_history))) if e < len(s.r_history)]
        if not asked:
            m.check(r.warnings and not r.paths, "nothing-to-show-warns", label)
        elif one(m, r, label):
            p = st.cam.of(r.paths[0])[0]
            m.check(len(p.lines) >= 1, "density-curves", label)
            if "epoches" in k:
                m.check(len(p.lines) == len(asked), "density-curves", f"{label} {k}: {len(p.lines)} curves")
            for l in p.lines:
                g = [w for w in l[2].split() if w.isdigit()]
                if m.check(len(g) == 1 and int(g[0]) < len(s.r_history), "density-curve-named", f"{label} {k}: {l[2]}") and np.all(np.isfinite(l[1])):
                    h = flat(s.r_history[int(g[0])])
                    area = np.trapezoid(l[1], l[0])
                    mean = np.trapezoid(l[0] * l[1], l[0]) / area
                    m.check(abs(area - 1) < 0.05 and abs(mean - h.mean()) < 0.05 * (np.std(h) + 1e-9) + 1e-9, "density-of-that-epoch",
                            lambda: f"{label} {k} {l[2]}: mean {mean} instead of {h.mean()}, area {area}")
            m.saw("line")


@workload(quick=8, thorough=80, timeout=200)
def spr(m, rng, i):
    """figures of the sparse-data model: collocation points, network values and the equation on them"""
    import checks.d08_pinn as P
    from kd.model.discover.program import Program
    dim = 1 + i % 3 if i % 3 < 2 else 1
    ds, env, params = None, None, None
    prob = P.problem(rng, dim)
    with P.Box(rng, prob[0], dim, epochs=2, pre=3, batch=12) as box:
        mod = box.mod
        with R.quiet():
            mod.import_dataset(prob[0], **box.opts)
            p = mod.train(n_epochs=int(rng.integers(1, 3)), verbose=False)["program"]
        if p is None or isinstance(p, list) or p.invalid or not p.r_ridge > 0:
            raise Discard("nothing valid found")
        m.saw("spr")
        task = Program.task
        pts = [c.detach().numpy().ravel() for c in list(task.x) + [task.t]]
        with Z.Studio() as st:
            o = options(rng, st)
            label = f"SPR dim {dim} {p.str_expression}"
            r = st.call(m, label, named, mod, "spr_residual", **o)
            if one(m, r, label):
                d = r.metadata["residual"]
                net = mod.denoise_pinn
                tree = P.tree_of(p)
                import torch
                try:
                    cols, ut = P.columns(net.nn, net.lb, net.ub, pts, tree, prob[2] or {}, torch.float32)
                except P.Pole:
                    cols = None
                m.close(np.asarray(d.input_coordinates), np.stack(pts, 1), "payload-coordinates", rtol=1e-5, atol=1e-6, msg=label)
                m.close(flat(d.residuals), flat(d.actual) - flat(d.predicted), "payload-residual-residual", rtol=1e-5, atol=1e-5 * (1 + np.abs(flat(d.actual)).max()), msg=label)
                m.check(r.metadata["n_spatial_dims"] == dim, "summary", label)
                if cols is not None and len(cols) == len(flat(p.w)):
                    sc = np.abs(ut).max() + sum(abs(k) * np.abs(c).max() for k, c in zip(flat(p.w), cols))
                    m.check(len(ut) == flat(d.actual).size and np.max(np.abs(ut - flat(d.actual))) <= 1e-3 * sc, "payload-residual-actual", label)
                    A = np.stack(cols, 1)
                    E = np.stack(P.columns(net.nn, net.lb, net.ub, pts, tree, prob[2] or {}, torch.float64)[0], 1)
                    if np.all(np.isfinite(A)) and np.all(np.linalg.norm(A - E, axis=0) <= 1e-3 * np.linalg.norm(E, axis=0)):
                        m.check(len(A) == flat(d.predicted).size and np.max(np.abs(A @ flat(p.w) - flat(d.predicted))) <= 1e-3 * sc, "residual-of-the-equation", label)
                        m.saw("spr-predicted")
                panels = st.cam.of(r.paths[0])
                sc_, hs = [q for q in panels if q.scatters], [q for q in panels if len(q.bars)]
                if m.check(len(sc_) == len(hs) == 1, "residual-panels", label):
                    scatter(m, sc_[0], d.actual, d.predicted, label)
                    hist(m, hs[0], d.residuals, label)
            r = st.call(m, label, named, mod, "equation", **o)
            if one(m, r, label):
                from kd.viz.discover_eq2latex import discover_program_to_latex
                text_of(m, st.cam, r.paths[0], r.metadata["latex"], label)
                said = discover_program_to_latex(p, lhs_axis=prob[0].lhs_axis, notation="subscript", axis_names=[a for a in prob[0].axis_order or () if a != prob[0].lhs_axis])
                m.check(r.metadata["latex"] == said, "shows-the-result-of-training", f"{label}: {r.metadata['latex']} instead of {said}")
            r = st.call(m, label, named, mod, "spr_field_comparison", **o)
            if r.paths and one(m, r, label):
                d = r.metadata["field_comparison"]
                lo, hi = min(flat(x).min() for x in d.spatial_coords), max(flat(x).max() for x in d.spatial_coords)
                m.check(len(d.spatial_coords) == min(dim, 2), "payload-axes", label)
                for got, want in zip(d.spatial_coords, pts[:2]):
                    m.check(abs(flat(got).min() - want.min()) < 1e-5 and abs(flat(got).max() - want.max()) < 1e-5, "payload-axes", label)
                drawn = st.cam.of(r.paths[0])
                given = st.call(m, label, named, mod, "spr_residual", **o).metadata["residual"]
                spr_fields(m, d, pts, flat(given.actual), flat(given.predicted), label)
                t = flat(d.t_coords)
                field_panels(m, drawn, [flat(c) for c in d.spatial_coords], t, np.asarray(d.true_field), np.asarray(d.predicted_field),
                             label, times=None if dim == 1 else sorted({0, len(t) // 2, len(t) - 1}))
            m.distinct((label, i))


def spr_fields(m, d, pts, actual, predicted, label):
    """scattered values laid over a grid: every time panel interpolates the points of its own span of time"""
    from scipy.interpolate import griddata
    gs, t = [flat(c) for c in d.spatial_coords], flat(d.t_coords)
    at = pts[-1]
    if len(pts) == 2:
        m.check(abs(t.min() - at.min()) < 1e-5 and abs(t.max() - at.max()) < 1e-5, "payload-axes", label)
        mesh_ = np.meshgrid(gs[0], t, indexing="ij")
        todo = [(slice(None), slice(None), tuple(mesh_), (pts[0], at))]
    else:
        edges = np.linspace(at.min(), at.max(), len(t) + 1)
        m.close(t, (edges[1:] + edges[:-1]) / 2, "payload-axes", rtol=1e-5, atol=1e-5 * (1 + np.abs(at).max()), msg=label)
        todo = []
        for k in range(len(t)):
            sel = (at >= edges[k]) & ((at < edges[k + 1]) | (k == len(t) - 1))
            todo.append((k, sel, tuple(np.meshgrid(gs[0], gs[1], indexing="ij")), tuple(x[sel] for x in pts[:2])))
    for k, sel, where, xs in todo:
        for field, values, name in ((d.true_field, actual, "true"), (d.predicted_field, predicted, "model")):
            got = np.asarray(field)[..., k] if len(pts) > 2 else np.asarray(field)
            vals = values[sel]
            if len(vals) < 4:
                m.check(not np.any(np.nan_to_num(got)), "nothing-drawn-without-points", label)
                continue
            m.saw("scattered-grid")
            sc = 1e-4 * (1e-12 + np.abs(vals).max())
            good = []
            for how in ("cubic", "linear"):
                try:
                    want = np.nan_to_num(griddata(xs, vals, where, method=how))
                except Exception as e:
                    m.saw("qhull")
                    continue
                good.append(np.mean(np.abs(got - want) > sc))
            if good:
                m.check(min(good) <= 0.02, "grid-interpolates-the-points", lambda: f"{label}: {name} panel {k}: {min(good):.3f} of the grid elsewhere than the points say")


@workload(quick=40, thorough=400)
def sliced(m, rng, i):
    """reducing more than two spatial axes to the two that are drawn"""
    from kd.viz._contracts import FieldComparisonData, slice_3d_to_2d
    n = int(rng.integers(3, 6))
    axes = [R.axis_values(rng, int(rng.integers(2, 5))) for _ in range(n)]
    t = R.axis_values(rng, int(rng.integers(2, 5)))
    shape = tuple(len(a) for a in axes) + (len(t),)
    a, b = rng.normal(size=shape), rng.normal(size=shape)
    c = None if rng.random() < 0.5 else rng.normal(size=shape)
    sa, si = int(rng.integers(-n, n)), None if rng.random() < 0.3 else int(rng.integers(-1, 6))
    label = f"{shape} axis {sa} index {si}"
    d = FieldComparisonData(spatial_coords=[x.copy() for x in axes], t_coords=t.copy(), true_field=a.copy(), predicted_field=b.copy(), residual_field=c)
    m.saw("sliced")
    r = slice_3d_to_2d(d, slice_axis=sa, slice_index=si)
    ax2, (wa, wb, wc) = cut(axes, [a, b, a - b if c is None else c], sa, si)
    payload_fields(m, r, ax2, t, wa, wb, label, wc)
    m.check(d.n_spatial_dims == n and np.array_equal(d.true_field, a) and np.array_equal(d.predicted_field, b), "inputs-untouched", label)
    m.distinct(label)


# ------------------------------------------------------------------ PySR
@workload(quick=24, thorough=300)
def pysr(m, rng, i):
    """parity and residuals of predictions on the training data or on data handed over"""
    import kd.model.kd_pysr as K, sys, types
    from kd import viz as V

    class Stub:
        def __init__(self, **kw):
            pass

        def fit(self, X, y, **kw):
            self.w = np.linalg.lstsq(np.asarray(X, dtype=float), np.asarray(y, dtype=float).ravel(), rcond=None)[0]
            return self

        def predict(self, X, *a, **k):
            return np.asarray(X, dtype=float) @ self.w + np.sin(np.asarray(X, dtype=float)[:, 0])

        def latex(self, *a, **k):
            return "x_{0} + 2"

        def get_best(self):
            return {"equation": "x0 + 2"}
    back = K._PySRRegressor, sys.modules.get("pysr")
    fake = types.ModuleType("pysr")
    fake.PySRRegressor = Stub
    sys.modules["pysr"], K._PySRRegressor = fake, None
    try:
        with R.quiet():
            mod = K.KD_PySR(niterations=1)
            n, d = int(rng.integers(3, 60)), int(rng.integers(1, 4))
            X = rng.normal(size=(n, d))
            y = X @ rng.normal(size=d) + 0.3 * rng.normal(size=n)
            mod.fit(X, y)
        m.saw("pysr")
        with Z.Studio() as st:
            for what in ("parity", "residual"):
                o = options(rng, st)
                A, b = X, y
                if rng.random() < 0.4:
                    A = rng.normal(size=(int(rng.integers(2, 40)), d))
                    b = rng.normal(size=len(A))
                    o.update(X=A, y=b if rng.random() < 0.5 else b.reshape(-1, 1))
                want = A @ np.linalg.lstsq(X, y, rcond=None)[0] + np.sin(A[:, 0])
                if rng.random() < 0.25:       # half a pair: the training pair is shown, or nothing
                    o.update(dict(X=rng.normal(size=X.shape)) if rng.random() < 0.5 else dict(y=rng.normal(size=n)))
                    if A is not X:
                        o.pop("X", None), o.pop("y", None)
                        A, b = X, y
                    want = X @ np.linalg.lstsq(X, y, rcond=None)[0] + np.sin(X[:, 0])
                elif rng.random() < 0.2:      # rows that do not pair up
                    bad = dict(X=rng.normal(size=(n + int(rng.integers(1, 4)), d)), y=rng.normal(size=n))
                    from kd.viz.core import VizRequest, render
                    r = st.call(m, f"PySR {what} unpaired", lambda mm, **k: render(VizRequest(kind=what, target=mm, options=k)), mod, **dict(o, show_info=False, **bad) if A is X else bad)
                    m.check(not r.paths and r.warnings, "unpaired-rows-refused", f"PySR {what}: {r.paths} {r.warnings}")
                    m.saw("pysr-unpaired")
                label = f"PySR {what} {A.shape} {'given' if A is not X else 'training'}"
                if what == "parity":
                    r = st.call(m, label, V.plot_parity, mod, watch=[dict(A=A, b=b)], **o)
                    if one(m, r, label):
                        ps = st.cam.of(r.paths[0])
                        if m.check(len(ps) == 1, "one-panel", label):
                            parity_panel(m, ps[0], b, want, label)
                else:
                    if rng.random() < 0.4:
                        o["bins"] = int(rng.integers(2, 50))
                    from kd.viz.core import VizRequest, render
                    o.pop("show_info")
                    r = st.call(m, label, lambda mm, **k: render(VizRequest(kind="residual", target=mm, options=k)), mod, **o)
                    if one(m, r, label):
                        stats(m, r.metadata, b - want, label, ["residual_mean", "residual_std"])
                        ps = st.cam.of(r.paths[0])
                        if m.check(len(ps) == 1, "one-panel", label):
                            hist(m, ps[0], b - want, label)
                m.distinct((label, i))
    finally:
        K._PySRRegressor = back[0]
        if back[1] is None:
            sys.modules.pop("pysr", None)
        else:
            sys.modules["pysr"] = back[1]
