"""D05: the arrays Discover works on are the dataset's, every value at its own coordinates."""
import itertools, os
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "D05"
RULE = "distinct (layout, sampling options) preparations whose every coordinate/value pair was looked up in the source"
REQUIRE = {"regular": 60, "sparse": 80, "pair": 5000, "refused": 60, "repeat": 40, "library": 30}
ASSUME = ["collocation points are random; only their bounds, number and the appended training points are judged",
          "noise is judged by its size relative to the spread of the values (5 sigma)"]


class Table:
    """unique look-up of a value by its coordinates"""

    def __init__(self, coords, values):
        G = np.meshgrid(*coords, indexing="ij")
        self.map = {tuple(float(g[i]) for g in G): float(values[i]) for i in np.ndindex(values.shape)}

    def at(self, pt):
        return self.map.get(tuple(float(v) for v in pt))


def nd_dataset(rng, dim=None, lo=5, hi=9, params=False):
    from kd.dataset import PDEDataset
    dim = dim or int(rng.integers(2, 4))
    names = [str(a) for a in rng.permutation(["x", "y", "z", "t", "r"])[:dim + 1]]
    same = int(rng.integers(lo, hi)) if rng.random() < 0.5 else None
    coords = {a: R.axis_values(rng, same or int(rng.integers(lo, hi))) for a in names}
    shape = tuple(len(coords[a]) for a in names)
    u = rng.permutation(int(np.prod(shape))).reshape(shape) / 7.0 + 0.25
    lhs = str(rng.choice(names))
    field = str(rng.choice(["u", "v", "T"]))
    F = {field: u}
    if rng.random() < 0.4:
        F["other"] = rng.normal(size=shape)
    P = {n: rng.normal(size=shape) for n in ("nu", "kappa")[:int(rng.integers(1, 3))]} if params else {}
    items = list(F.items())
    F = dict(items if rng.random() < 0.5 else items[::-1])
    ds = PDEDataset(equation_name="w", fields_data=F, coords_1d=coords, axis_order=names, target_field=field, lhs_axis=lhs,
                    **({"param_fields": P} if P else {}))
    return ds, names, coords, u, lhs, P


def legacy_dataset(rng, params=False, n=None):
    from kd.dataset import PDEDataset
    nx, nt = n or (int(v) for v in rng.integers(5, 20, 2))
    x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
    u = rng.permutation(nx * nt).reshape(nx, nt) / 7.0 + 0.25
    P = {"nu": rng.normal(size=u.shape)} if params else {}
    ds = PDEDataset(equation_name="w", x=x, t=t, usol=u, **({"param_fields": P} if P else {}))
    return ds, x, t, u, P


def frozen(ds):
    import hashlib
    out = []
    for k in ("x", "t", "usol"):
        a = getattr(ds, k, None)
        out.append(None if a is None else hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest())
    for k in ("fields_data", "coords_1d", "param_fields"):
        for n, a in (getattr(ds, k, None) or {}).items():
            out.append((n, hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()))
    return out


@workload(quick=80, thorough=1000)
def regular(m, rng, i):
    from kd.model.discover.adapter import DiscoverRegularAdapter
    par = bool(rng.random() < 0.5)
    if i % 3 == 0:
        ds, x, t, u, P = legacy_dataset(rng, par)
        before = frozen(ds)
        d = DiscoverRegularAdapter(ds).get_data()
        spatial, lhs, perm, dim = [x], t, (0, 1), 1
        ut = R.fd1(u, t[1] - t[0], 1)
    else:
        ds, names, coords, u, l, P = nd_dataset(rng, params=par)
        before = frozen(ds)
        d = DiscoverRegularAdapter(ds).get_data()
        sp = [a for a in names if a != l]
        perm = [names.index(l)] + [names.index(a) for a in sp]
        spatial, lhs, dim = [coords[a] for a in sp], coords[l], len(sp)
        ut = np.transpose(R.fd1(u, lhs[1] - lhs[0], names.index(l)), perm)
    m.saw("regular")
    U = np.transpose(u, perm)
    m.check(np.array_equal(d["u"], U), "field-values", f"{U.shape} {np.shape(d['u'])}")
    m.saw("pair", U.size)
    m.close(d["ut"], ut, "left-hand-side", rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(ut))))
    m.check(len(d["X"]) == dim and all(np.array_equal(np.ravel(a), b) and a.shape == (len(b), 1) for a, b in zip(d["X"], spatial)),
            "coordinates", "")
    m.check(d["n_input_dim"] == dim, "dimension", d["n_input_dim"])
    if P:
        m.check(d["param_names"] == list(P) and d["n_param_var"] == len(P), "parameter-names", str(d.get("param_names")))
        m.check(all(np.array_equal(a, np.transpose(P[n], perm)) for a, n in zip(d["param_data"], P)), "parameter-values", "")
    else:
        m.check(not d.get("param_data") and not d.get("n_param_var"), "no-parameters", "")
    m.check(frozen(ds) == before, "dataset-unchanged", "")
    m.distinct(("regular", dim, U.shape, tuple(perm)))


@workload(quick=400, thorough=2500)
def sparse(m, rng, i):
    from kd.model.discover.adapter import DiscoverSparseAdapter
    par = bool(rng.random() < 0.3)
    legacy = i % 2 == 0
    kw = {"random_state": int(rng.integers(1 << 20)), "colloc_num": int(rng.integers(1, 60))}
    if legacy:
        ds, x, t, u, P = legacy_dataset(rng, par)
        coords, U = [x, t], u
    else:
        ds, names, C, u, l, P = nd_dataset(rng, params=par)
        order = [a for a in names if a != l] + [l]
        coords, perm = [C[a] for a in order], [names.index(a) for a in order]
        U = np.transpose(u, perm)
    tab = Table(coords, U)
    total = U.size
    if rng.random() < 0.5:
        want = kw["sample"] = int(rng.integers(5, [total + 1, 12][int(rng.integers(2))]))
    else:
        kw["sample_ratio"] = float(rng.choice([0.1, 0.35, 0.8, 1.0]))
        want = max(1, int(total * kw["sample_ratio"]))
    full = [c for c in coords]
    if legacy and rng.random() < 0.35:
        kw["spline_sample"] = True
        want = None
    if legacy and rng.random() < 0.35:
        q = kw["cut_quantile"] = float(rng.choice([0.0, 0.1, 0.2, 0.3]))
        full = [c[int(np.floor(len(c) * q)):len(c) - int(np.floor(len(c) * q))] if len(c) - 2 * int(np.floor(len(c) * q)) >= 2 else c
                for c in coords]
        cut = tuple(len(c) for c in full)
        if want is not None:
            if "sample" in kw:
                want = kw["sample"] = min(kw["sample"], int(np.prod(cut)))
            else:
                want = max(1, int(np.prod(cut) * kw["sample_ratio"]))
    ratio = None
    if legacy and rng.random() < 0.35:
        ratio = kw["data_ratio"] = float(rng.choice([0.3, 0.6, 1.0]))
    noise = 0.0
    if rng.random() < 0.25:
        noise = kw["noise_level"] = float(rng.choice([0.01, 0.1]))
    before = frozen(ds)
    np.random.seed(int(rng.integers(1 << 30)))
    d = DiscoverSparseAdapter(ds, **kw).get_data()
    m.saw("sparse")
    label = str({k: v for k, v in kw.items()}) + f" {U.shape}"
    lb, ub = np.array([c.min() for c in full]), np.array([c.max() for c in full])
    m.close(np.asarray(d["lb"], float), lb, "lower-bound", rtol=0, atol=0, msg=label)
    m.close(np.asarray(d["ub"], float), ub, "upper-bound", rtol=0, atol=0, msg=label)
    # measured points
    pts = [tuple(map(float, p)) for p in d["measured_points"]]
    m.check(len(set(pts)) == len(pts), "points-distinct", label)
    m.check(all(tab.at(p) is not None for p in pts), "points-on-the-grid", label)
    m.check(all(np.all(np.array(p) >= lb) and np.all(np.array(p) <= ub) for p in pts), "points-inside", label)
    if want is not None:
        m.check(len(pts) == want, "sample-size", f"{label}: {len(pts)} points instead of {want}")
    m.check(d["sampling_strategy"] == ("spline" if kw.get("spline_sample") else "random"), "strategy-label", label)
    if kw.get("spline_sample"):
        if "sample" in kw:      # whole histories, as many as were asked for, no more
            m.check(min(len(full[0]), max(1, kw["sample"] // len(full[1]))) == len(pts) // len(full[1]), "spline-sample-size", f"{label}: {len(pts)} points for {kw['sample']}")
        xs = sorted({p[0] for p in pts})
        m.check(set(pts) == set(itertools.product(xs, map(float, full[1]))), "spline-takes-whole-histories", label)
    # train / validation
    tr, va = (list(map(lambda p: tuple(map(float, p)), d[k])) for k in ("X_u_train", "X_u_val"))
    m.check(len(set(tr)) == len(tr) and len(set(va)) == len(va) and not set(tr) & set(va), "train-and-validation-disjoint", label)
    m.check(set(tr) | set(va) <= set(pts), "train-and-validation-are-measured", label)
    n_tr, n_va = int(len(pts) * 0.8), len(pts) - int(len(pts) * 0.8)
    if ratio is not None:
        n_tr, n_va = max(1, int(n_tr * ratio)) if n_tr else 0, max(1, int(n_va * ratio)) if n_va else 0
    m.check((len(tr), len(va)) == (n_tr, n_va), "split-sizes", f"{label}: {len(tr)}+{len(va)} instead of {n_tr}+{n_va}")
    for P_, V in ((tr, d["u_train"]), (va, d["u_val"])):
        V = np.asarray(V)
        m.check(V.shape == (len(P_), 1), "value-shape", f"{label}: {V.shape}")
        truth = np.array([tab.at(p) for p in P_], dtype=float)
        m.saw("pair", len(P_))
        if not noise:
            m.check(np.array_equal(V[:, 0], truth), "value-at-its-point", label)
        elif len(P_):
            sd = noise * np.std(U) * 1.6 + 1e-12
            m.check(np.all(np.abs(V[:, 0] - truth) < 6 * sd), "noise-size", f"{label}: {np.max(np.abs(V[:, 0] - truth))} for sigma {sd}")
            if len(P_) >= 8:
                m.check(np.std(V[:, 0] - truth) > 0.2 * noise * np.std(truth) * 0.5, "noise-applied", label)
    # collocation
    X_f = np.asarray(d["X_f_train"])
    m.check(X_f.shape == (kw["colloc_num"] + len(tr), len(full)), "collocation-size", f"{label}: {X_f.shape}")
    m.check(np.all(X_f >= lb - 1e-12) and np.all(X_f <= ub + 1e-12), "collocation-inside", label)
    m.check([tuple(map(float, p)) for p in X_f[len(X_f) - len(tr):]] == tr, "collocation-includes-training-points", label)
    # the whole field
    star, us = np.asarray(d["X_star"]), np.asarray(d["u_star"])
    grid = list(itertools.product(*[map(float, c) for c in full]))
    m.check([tuple(map(float, p)) for p in star] == grid, "full-grid", label)
    m.check(us.shape == (len(grid), 1) and np.array_equal(us[:, 0], [tab.at(p) for p in grid]), "full-field", label)
    m.check(tuple(d["shape"]) == tuple(len(c) for c in full), "full-shape", label)
    if P:
        m.check(d["param_names"] == list(P) and d["n_param_var"] == len(P), "parameter-names", label)
        m.check(all(np.array_equal(a, P[n] if legacy else np.transpose(P[n], perm)) for a, n in zip(d["param_data"], P)), "parameter-values", label)
    m.check(frozen(ds) == before, "dataset-unchanged", label)
    m.distinct((legacy, U.shape, tuple(sorted((k, v) for k, v in kw.items() if k != "random_state"))))
    # the same random state gives the same data, whatever the global generator does
    np.random.seed(int(rng.integers(1 << 30)))
    d2 = DiscoverSparseAdapter(ds, **kw).get_data()
    m.saw("repeat")
    for k in ("measured_points", "X_u_train", "u_train", "X_u_val", "u_val", "X_f_train"):
        m.check(np.array_equal(d[k], d2[k]), "random-state-repeats", f"{label}: {k} differs")
    if want is not None and 8 <= want <= total // 2 and not kw.get("cut_quantile"):
        d3 = DiscoverSparseAdapter(ds, **{**kw, "random_state": kw["random_state"] + 1}).get_data()
        m.check(not np.array_equal(d["measured_points"], d3["measured_points"]), "random-state-matters", label)


@workload(quick=60, thorough=600)
def refusals(m, rng, i):
    """one inconsistency at a time"""
    from kd.dataset import PDEDataset
    from kd.model.discover.adapter import DiscoverRegularAdapter, DiscoverSparseAdapter
    kind = i % 16
    uneven = lambda n: np.cumsum(np.concatenate([[0], np.where(np.arange(n - 1) == int(rng.integers(1, n - 1)), 1.5, 1.0)])) * float(rng.choice([1.0, 0.01]))
    nd, leg = None, None
    A = DiscoverRegularAdapter
    kw = {}

    def leg_of(x=None, t=None, u=None):
        x = R.axis_values(rng, 9) if x is None else x
        t = R.axis_values(rng, 8) if t is None else t
        u = rng.normal(size=(len(x), len(t))) if u is None else u
        return PDEDataset(equation_name="w", x=x, t=t, usol=u)

    def nd_of(coords, names, lhs, u=None):
        sh = tuple(len(coords[a]) for a in names)
        return PDEDataset(equation_name="w", fields_data={"u": rng.normal(size=sh) if u is None else u}, coords_1d=coords,
                          axis_order=names, target_field="u", lhs_axis=lhs)
    base = {a: R.axis_values(rng, 7) for a in ("x", "y", "t")}
    names = [str(a) for a in rng.permutation(["x", "y", "t"])]
    try:
        if kind == 0:
            ds = leg_of(x=uneven(9))
        elif kind == 1:
            ds = leg_of(t=uneven(8))
        elif kind == 2:
            ds = nd_of({**base, "y": uneven(7)}, names, "t")
        elif kind == 3:
            ds = nd_of({**base, "t": uneven(7)}, names, "t")
        elif kind == 4:
            ds = leg_of(t=np.array([0.0, 1.0]))
        elif kind == 5:
            ds = nd_of({**base, "t": np.array([0.0, 1.0])}, names, "t")
        elif kind == 6:
            ds = nd_of({**base, "x": np.array([0.0, 1.0, 2.0])}, names, "t")
        elif kind == 7:
            u = rng.normal(size=(9, 8))
            u[tuple(rng.integers(0, 8, 2))] = rng.choice([np.nan, np.inf])
            ds = leg_of(u=u)
        elif kind == 8:
            u = rng.normal(size=(7, 7, 7))
            u[tuple(rng.integers(0, 7, 3))] = rng.choice([np.nan, np.inf])
            ds = nd_of(base, names, "t", u)
            A = [DiscoverRegularAdapter, DiscoverSparseAdapter][rng.integers(2)]
        elif kind == 9:
            ds, kw = leg_of(), {"n_input_dim": 2}
        elif kind == 10:
            ds, kw = nd_of(base, names, "t"), {"n_input_dim": int(rng.choice([1, 3]))}
        elif kind == 11:
            A, kw = DiscoverSparseAdapter, {"sample": 73 if i % 2 else 344}
            ds = leg_of() if i % 2 else nd_of(base, names, "t")
        elif kind == 12:
            A, kw = DiscoverSparseAdapter, {"sample_ratio": float(rng.choice([0.0, -0.1, 1.01]))}
            ds = leg_of() if rng.random() < 0.5 else nd_of(base, names, "t")
        elif kind == 13:
            A, kw = DiscoverSparseAdapter, [{"cut_quantile": 0.5}, {"cut_quantile": -0.1}, {"data_ratio": 0.0}, {"data_ratio": 1.5}][rng.integers(4)]
            ds = leg_of()
        elif kind == 15:
            four = {a: R.axis_values(rng, 5) for a in ("x", "y", "z", "w", "t")}
            ds = nd_of(four, [str(a) for a in rng.permutation(list(four))], "t")
        else:
            A, kw = DiscoverSparseAdapter, [{"cut_quantile": 0.1}, {"data_ratio": 0.5}, {"spline_sample": True}][rng.integers(3)]
            ds = nd_of(base, names, "t")
    except (ValueError, TypeError):
        m.saw("refused")
        m.check(True, "refused")
        return
    m.raises((ValueError, NotImplementedError), lambda: A(ds, **kw), "inconsistent-data-refused", f"kind {kind} {kw}")
    m.saw("refused")
    m.distinct(("refused", kind, str(kw)))
    m.raises(TypeError, lambda: A({"u": 1}), "not-a-dataset-refused")


@workload(quick=24, thorough=240)
def library(m, rng, i):
    """the operators and operands a model offers fit the data, for every sequence of data sets"""
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import Program
    asked = i % 2 == 1
    b, un = (["add", "mul", "sub"], ["n2", "sin"]) if asked else ([], [])
    mod = KD_Discover(n_iterations=1, n_samples_per_batch=10, binary_operators=list(b), unary_operators=list(un), out_path=None, seed=i)
    for step in range(4):
        par = bool(rng.random() < 0.4)
        dim = int(rng.integers(1, 4))
        if dim == 1:
            ds, x, t, u, P = legacy_dataset(rng, par)
        else:
            ds, names, coords, u, l, P = nd_dataset(rng, dim, params=par)
        with R.quiet():
            mod.import_dataset(ds)
        names = list(Program.library.names)
        m.saw("library")
        leaves = {n for n in names if D.arity(n) == 0}
        m.check(leaves == {"u1", *("x%d" % (k + 1) for k in range(dim)), *P}, "operands", f"dim {dim} params {list(P)}: {leaves}")
        ops = [n for n in names if D.arity(n)]
        m.check(len(set(names)) == len(names), "no-duplicate-token", str(names))
        if asked:
            m.check(set(ops) == set(b + un), "operators-are-what-was-asked", f"{ops}")
        else:
            der = {n for n in ops if n in D.FD_NAMES or n in D.LAPS}
            ok = {1: {"diff", "diff2", "diff3", "diff4"}, 2: {"Diff", "Diff2", "lap"}, 3: {"Diff_3", "Diff2_3", "lap_3"}}[dim]
            m.check(der and der <= ok, "derivatives-of-this-dimension", f"dim {dim}: {der}")
            m.check({"add", "mul"} <= set(ops), "arithmetic-kept", str(ops))
        tok = {t.name: t for t in Program.library.tokens}
        for n, a in P.items():
            ref = np.asarray(tok[n]._param_data_ref, float)
            src = a if dim == 1 else np.transpose(a, [ds.axis_order.index(l)] + [k for k, q in enumerate(ds.axis_order) if q != l])
            m.check(np.array_equal(ref, src), "parameter-reaches-its-token", n)
        m.distinct((asked, dim, par, step))


@workload(quick=16, thorough=100)
def legacy_sources(m, rng, i):
    """the older data handlers: the built-in problems, and points given directly"""
    from kd.data import RegularData, SparseData
    if i % 2:
        n, dim = int(rng.integers(5, 60)), int(rng.integers(2, 5))
        X, u = rng.normal(size=(n, dim)), rng.normal(size=(n, 1))
        keep = X.copy(), u.copy()
        s = SparseData(X, u)
        s.colloc_num = int(rng.integers(1, 50))
        lb, ub = X.min(0), X.max(0)
        s.process_data((lb, ub))
        d = s.get_data()
        row = {tuple(a): float(b) for a, b in zip(X, u[:, 0])}
        tr, va = [tuple(p) for p in d["X_u_train"]], [tuple(p) for p in d["X_u_val"]]
        m.check(len(tr) == int(0.8 * n) and sorted(tr + va) == sorted(row), "points-partitioned", "")
        m.check([row[p] for p in tr + va] == [float(v) for v in np.concatenate([d["u_train"], d["u_val"]])[:, 0]], "value-at-its-point", "")
        m.check(d["X_f_train"].shape == (s.colloc_num + len(tr), dim) and np.all(d["X_f_train"] >= lb - 1e-12)
                and np.all(d["X_f_train"] <= ub + 1e-12), "collocation-inside", "")
        m.check(np.array_equal(keep[0], X) and np.array_equal(keep[1], u), "inputs-unchanged", "")
        m.saw("sparse")
        m.saw("pair", n)
        m.distinct(("direct", n, dim))
        return
    name = ["chafee-infante", "Burgers", "Kdv"][(i // 2) % 3]
    import scipy.io
    import kd
    base = os.path.join(os.path.dirname(kd.__file__), "dataset", "data")
    if name == "chafee-infante":
        U, X, T = (np.load(os.path.join(base, f"chafee_infante_{k}.npy")) for k in ("CI", "x", "t"))
    else:
        f = scipy.io.loadmat(os.path.join(base, {"Burgers": "burgers.mat", "Kdv": "Kdv.mat"}[name]))
        U, X, T = (f["usol"], f["x"], f["t"]) if name == "Burgers" else (f["uu"], f["x"], f["tt"])
    X, T = np.ravel(X), np.ravel(T)
    cwd = os.getcwd()
    os.chdir(["/", cwd][rng.integers(2)])
    try:
        s = RegularData(name)
        s.load_data()
    finally:
        os.chdir(cwd)
    d = s.get_data()
    m.saw("regular")
    m.check(np.array_equal(d["u"], U) and np.array_equal(np.ravel(d["X"][0]), X), "built-in-data", name)
    m.close(d["ut"], R.fd1(np.asarray(U, float), float(T[1] - T[0]), 1), "built-in-left-hand-side", rtol=1e-9, atol=1e-9)
    D.parse(d["sym_true"].split(","))
    m.raises((AssertionError, ValueError, KeyError), lambda: RegularData("nothing"), "unknown-name-refused")
    m.distinct(("built-in", name))
