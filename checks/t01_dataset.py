"""T01: every view of a dataset pairs each coordinate with its own value."""
import numpy as np
from vkit import workload
from vkit import sga_ref as R

PROPERTY = "T01"
RULE = "distinct (layout, grid shape, accessor, argument class) accesses whose points were looked up in the source arrays"
REQUIRE = {"point": 2000, "access": 150, "refused": 40, "layout:legacy": 10, "layout:tx": 10}


def make(rng, layout=None):
    from kd.dataset import PDEDataset
    layout = layout or ["legacy", "pde_data", "xt", "tx"][rng.integers(4)]
    nx, nt = int(rng.integers(5, 30)), int(rng.integers(5, 30))
    if rng.random() < 0.15:
        nt = nx
    x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
    if rng.random() < 0.3:          # nothing in these accessors asks for a uniform grid
        x = np.sort(rng.uniform(-3, 3, nx))
        t = np.cumsum(rng.uniform(0.1, 0.5, nt))
        x, t = (c[::-1].copy() if rng.random() < 0.2 else c for c in (x, t))
    u = R.smooth_field(rng, list(np.meshgrid(x, t, indexing="ij"))) * 10.0 ** rng.integers(-3, 4)
    if layout == "legacy":
        sx = x.reshape(-1, 1) if rng.random() < 0.3 else x
        ds = PDEDataset(equation_name="r", x=sx.copy(), t=t.copy(), usol=u.copy())
    elif layout == "pde_data":
        uu = u + 0j if rng.random() < 0.4 else u
        ds = PDEDataset(equation_name="r", pde_data={"x": x.reshape(1, -1).copy(), "t": t.reshape(-1, 1).copy(), "usol": uu.copy()})
    else:
        order = ["x", "t"] if layout == "xt" else ["t", "x"]
        f = u if layout == "xt" else u.T
        fields = {"u": f.copy(), "v": -f}
        lhs = ["t", "t", "x"][int(rng.integers(3))]           # which side is discovered does not move a value
        ds = PDEDataset(equation_name="r", fields_data=fields, coords_1d={"x": x.copy(), "t": t.copy()}, axis_order=order, lhs_axis=lhs)
    return ds, x, t, u, layout


def look(x, t, u, pts, vals, tol=0.0):
    """max error of the (x, t, value) triples against the grid; None if a point is off-grid"""
    ox, ot = np.argsort(x), np.argsort(t)
    ix, it = np.searchsorted(x[ox], pts[:, 0]), np.searchsorted(t[ot], pts[:, 1])
    if ix.max() < len(x) and it.max() < len(t):
        ix, it = ox[ix], ot[it]
    if ix.max() >= len(x) or it.max() >= len(t) or not (np.array_equal(x[ix], pts[:, 0]) and np.array_equal(t[it], pts[:, 1])):
        return None, None
    return np.abs(u[ix, it] - np.asarray(vals).reshape(-1)).max(), ix * len(t) + it


@workload(quick=900, thorough=8000)
def accessors(m, rng, i):
    ds, x, t, u, layout = make(rng)
    m.saw("layout:" + ("legacy" if layout in ("legacy", "pde_data") else layout))
    N = u.size
    tag = f"{layout} {u.shape}"
    m.check(np.array_equal(ds.x, x) and np.array_equal(ds.t, t), "coordinates", tag)
    d = ds.get_data()
    m.check(np.array_equal(d["x"], x) and np.array_equal(d["t"], t), "get-data", tag)
    m.check(np.array_equal(d["usol"], u if layout != "tx" else u.T), "get-data", tag)
    m.check(np.array_equal(ds["x"], x), "item-access", tag)
    m.raises(KeyError, lambda: ds["nope"], "item-access-unknown", tag)
    m.check(tuple(ds.get_size()) == ds.usol.shape, "size", tag)
    for _ in range(6):
        a, b = int(rng.integers(len(x))), int(rng.integers(len(t)))
        m.saw("point")
        m.check(tuple(map(float, ds.get_datapoint(a, b))) == (x[a], t[b], u[a, b]), "datapoint", f"{tag} [{a},{b}]")
    for a, b in ((-1, 0), (0, -1), (len(x), 0), (0, len(t))):
        m.saw("refused")
        m.raises(IndexError, lambda: ds.get_datapoint(a, b), "datapoint-out-of-range", f"{tag} [{a},{b}]")
    b = ds.get_boundaries()
    m.check({k: tuple(map(float, v)) for k, v in b.items()} == {"x": (x.min(), x.max()), "t": (t.min(), t.max())}, "boundaries", f"{tag} {b}")
    for ind in ("ij", "xy"):
        lo, hi = ds.mesh_bounds(ind)
        m.check(np.array_equal(lo, [x.min(), t.min()]) and np.array_equal(hi, [x.max(), t.max()]), "mesh-bounds", tag)
        M = ds.mesh(ind)
        m.check(M.shape == (N, 2) and len({tuple(r) for r in M}) == N, "mesh-covers-grid-once", tag)
    M = ds.mesh()
    err, _ = look(x, t, u, M, u.reshape(-1))
    m.check(err == 0.0, "mesh-order", f"{tag}: mesh rows are not in (x, t) row-major order")
    # ranges
    lo, hi = np.sort(rng.uniform(x.min() - 0.3, x.max() + 0.3, 2))
    a, b2 = np.sort(rng.uniform(t.min() - 0.3, t.max() + 0.3, 2))
    k = rng.integers(4)
    if k == 0:
        lo, hi = x.min(), x.max()
    if k == 1:
        a, b2 = sorted((t[1], t[-1]))
    r = ds.get_range((lo, hi), (a, b2))
    sx, st = (x >= lo) & (x <= hi), (t >= a) & (t <= b2)
    m.saw("access")
    m.check(np.array_equal(r["x"], x[sx]) and np.array_equal(r["t"], t[st]), "range-coordinates", f"{tag} x {lo},{hi} t {a},{b2}: {r['x']}")
    m.check(np.array_equal(r["usol"], u[np.ix_(sx, st)]), "range-values", f"{tag}")
    # derivative: exact for central differences on the given coordinates
    for ax, c, j in (("x", x, 0), ("t", t, 1)):
        g = ds.get_derivative(ax)
        want = np.gradient(u, c, axis=j)
        want = want if layout != "tx" else want.T
        m.close(g, want, "derivative", rtol=1e-9, atol=1e-12 * np.abs(want).max(), msg=f"{tag} d/d{ax}")
    m.raises(ValueError, lambda: ds.get_derivative("y"), "derivative-unknown-axis", tag)
    m.distinct((layout, u.shape))


@workload(quick=1200, thorough=10000)
def sampling(m, rng, i):
    ds, x, t, u, layout = make(rng)
    N = u.size
    method = ["random", "uniform", "spline"][i % 3]
    form = ["count", "ratio", "one", "all", "full"][rng.integers(5)]
    n = {"count": int(rng.integers(1, N + 1)), "ratio": float(rng.uniform(0.02, 0.99)), "one": 1, "all": N, "full": 1.0}[form]
    want = int(N * n) if isinstance(n, float) else n
    tag = f"{layout} {u.shape} {method} n={n}"
    if want == 0:
        return
    np.random.seed(int(rng.integers(2 ** 31)))
    if method == "spline" and (x[0] > x[-1] or t[0] > t[-1]):       # may be refused, not misread
        try:
            P, v = ds.sample(n, method)
        except ValueError:
            m.saw("refused")
            return
        x, u = (x, u) if x[0] < x[-1] else (x[::-1], u[::-1])
        t, u = (t, u) if t[0] < t[-1] else (t[::-1], u[:, ::-1])
    else:
        P, v = ds.sample(n, method)
    m.saw("access")
    m.saw("point", len(P))
    m.check(P.ndim == 2 and P.shape[1] == 2 and v.shape == (len(P), 1), "sample-shape", f"{tag}: {P.shape} {v.shape}")
    if method == "random":
        err, ids = look(x, t, u, P, v)
        m.check(err == 0.0, "sample-random-pairs", f"{tag}: error {err}")
        m.check(len(P) == want, "sample-random-count", f"{tag}: {len(P)} points, wanted {want}")
        m.check(ids is not None and len(set(ids)) == len(P), "sample-random-without-replacement", tag)
    elif method == "uniform":
        err, ids = look(x, t, u, P, v)
        m.check(err == 0.0, "sample-uniform-pairs", f"{tag}: error {err}")
        m.check(1 <= len(P) <= want, "sample-uniform-count", f"{tag}: {len(P)}")
        if len(P) >= 4:
            m.check(P[:, 0].max() == x.max() and P[:, 0].min() == x.min() and P[:, 1].max() == t.max(), "sample-uniform-spans-domain", tag)
    else:
        from scipy.interpolate import RegularGridInterpolator
        m.check(1 <= len(P) <= want, "sample-spline-count", f"{tag}: {len(P)}")
        inside = (P[:, 0] >= x.min() - 1e-9) & (P[:, 0] <= x.max() + 1e-9) & (P[:, 1] >= t.min() - 1e-9) & (P[:, 1] <= t.max() + 1e-9)
        m.check(np.all(inside), "sample-spline-inside", tag)
        Q = np.column_stack([np.clip(P[:, 0], x.min(), x.max()), np.clip(P[:, 1], t.min(), t.max())])
        lin = RegularGridInterpolator((x, t), u)(Q)
        # any smooth interpolant stays near the piecewise-linear one; a swapped axis does not
        hx, ht = np.diff(x).max(), np.diff(t).max()
        curv = np.abs(np.diff(u, 2, axis=0)).max() + np.abs(np.diff(u, 2, axis=1)).max() + np.abs(np.diff(np.diff(u, axis=0), axis=1)).max()
        uniform = np.allclose(np.diff(x), hx) and np.allclose(np.diff(t), ht)
        if uniform:
            m.check(np.abs(lin - v[:, 0]).max() <= 2 * curv + 1e-9 * np.abs(u).max(), "sample-spline-pairs", f"{tag}: error {np.abs(lin - v[:, 0]).max()} curvature {curv}")
    with np.errstate(all="ignore"):
        m.saw("refused")
        m.raises(ValueError, lambda: ds.sample(N + 1, method), "sample-too-many-refused", tag)
        m.raises(ValueError, lambda: ds.sample(1, "nope"), "sample-unknown-method-refused", tag)
    m.distinct((layout, u.shape, method, form))


@workload(quick=900, thorough=6000)
def construction(m, rng, i):
    """Misaligned inputs are refused; aligned N-D inputs are kept as given."""
    from kd.dataset import PDEDataset
    order = [str(a) for a in rng.permutation(["x", "y", "z", "t"])[:rng.integers(2, 5)]]
    sizes = [int(s) for s in rng.permutation(np.arange(3, 8))[:len(order)]]
    if rng.random() < 0.2:          # a single plane of data is data
        sizes[int(rng.integers(len(order)))] = 1
    coords = {a: R.axis_values(rng, n) for a, n in zip(order, sizes)}
    f = {"u": rng.normal(size=sizes), "v": rng.normal(size=sizes)}
    lhs = str(rng.choice(order))
    tgt = str(rng.choice(["u", "v"]))
    kw = dict(fields_data=f, coords_1d=coords, axis_order=order, target_field=tgt, lhs_axis=lhs)
    if rng.random() < 0.5:
        kw["param_fields"] = {"nu": rng.normal(size=sizes)}
    ds = PDEDataset("r", **kw)
    m.check(list(ds.axis_order) == order and ds.target_field == tgt and ds.lhs_axis == lhs, "nd-metadata", "")
    m.check(all(np.array_equal(ds.fields_data[k], f[k]) for k in f) and np.array_equal(ds.usol, f[tgt]) and np.array_equal(ds.u, f[tgt]), "nd-fields", "")
    m.check(all(np.array_equal(ds.coords_1d[a], coords[a]) for a in order), "nd-coordinates", "")
    m.check({k: tuple(v) for k, v in ds.get_boundaries().items()} == {a: (coords[a].min(), coords[a].max()) for a in order}, "nd-boundaries", "")
    m.check(set(ds.param_fields) == set(kw.get("param_fields", {})), "nd-params", "")
    m.saw("access")
    bad = ["no-order", "no-coords", "no-fields", "empty-fields", "dup", "missing-axis", "extra-axis", "target", "lhs", "swap", "ragged",
           "param-shape", "param-nan", "nothing", "legacy-shape", "thick-front", "thick-back", "flat", "long-coord", "short-coord",
           "complex-shape"][int(rng.integers(21))]
    kw = dict(kw)
    if bad == "no-order":
        kw["axis_order"] = None
    elif bad == "no-coords":
        kw["coords_1d"] = None
    elif bad == "no-fields":
        kw["fields_data"] = None
    elif bad == "empty-fields":
        kw["fields_data"] = {}
    elif bad == "dup":
        kw["axis_order"] = order[:-1] + [order[0]]
    elif bad == "missing-axis":
        kw["axis_order"] = order[:-1]
    elif bad == "extra-axis":
        kw["axis_order"] = order + ["w"]
    elif bad == "target":
        kw["target_field"] = "w"
    elif bad == "lhs":
        kw["lhs_axis"] = "w"
    elif bad == "swap":
        kw["axis_order"] = order[::-1]
    elif bad == "ragged":
        kw["fields_data"] = {"u": f["u"], "v": f["v"][:-1]}
    elif bad == "param-shape":
        kw["param_fields"] = {"nu": rng.normal(size=sizes[::-1])}
    elif bad == "param-nan":
        p = rng.normal(size=sizes)
        p.flat[int(rng.integers(p.size))] = rng.choice([np.nan, np.inf])
        kw["param_fields"] = {"nu": p}
    elif bad in ("thick-front", "thick-back", "flat"):
        k = {"thick-front": lambda a: a[None], "thick-back": lambda a: a[..., None], "flat": lambda a: a.reshape(-1)}[bad]
        kw["fields_data"] = {n: k(a) for n, a in f.items()}
        kw.pop("param_fields", None)
    elif bad in ("long-coord", "short-coord"):
        a = order[int(rng.integers(len(order)))]
        kw["coords_1d"] = {**coords, a: np.append(coords[a], coords[a][-1] + 1) if bad == "long-coord" or len(coords[a]) == 1 else coords[a][:-1]}
    elif bad == "complex-shape":
        kw = dict(pde_data={"x": np.arange(4.0), "t": np.arange(5.0), "usol": np.zeros((5, 4)) + 0j})
    elif bad == "nothing":
        kw = {}
    elif bad == "legacy-shape":
        kw = dict(x=np.arange(4.0), t=np.arange(5.0), usol=np.zeros((5, 4)))
    m.saw("refused")
    m.raises((ValueError,), lambda: PDEDataset("r", **kw), "refuses:" + bad, f"{bad} {order} {sizes}")
    m.distinct(("construct", tuple(order), tgt, lhs, bad))


@workload(quick=120, thorough=600)
def file_loading(m, rng, i):
    """A solution stored in a file comes back with every value at its own coordinates."""
    import os
    import scipy.io as sio
    from kd import runner
    from kd.dataset._base import PDEDataLoader, load_mat_file
    nx, nt = int(rng.integers(4, 12)), int(rng.integers(4, 12))
    if rng.random() < 0.3:
        nt = nx
    x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
    u = rng.normal(size=(nx, nt))
    flip = rng.random() < 0.5 and nx != nt
    st = u.T if flip else u
    kind = i % 3
    kx, kt, ku = [("x", "t", "usol"), ("xx", "tt", "uu"), ("X", "T", "U")][rng.integers(3)]
    m.saw("access")
    if kind == 0:
        p = os.path.abspath(f"f{i}.mat")
        sio.savemat(p, {kx: x, kt: t, ku: st})
        cfg = {"dataset_file": p, "file_config": {"x_key": kx, "t_key": kt, "u_key": ku}}
        if (kx, kt, ku) == ("x", "t", "usol") and rng.random() < 0.5:
            cfg.pop("file_config")
        ds = runner.load_dataset(cfg)
        raw = load_mat_file(p)
        m.check(set(raw) == {kx, kt, ku}, "mat-metadata-stripped", str(set(raw)))
    elif kind == 1:
        p = os.path.abspath(f"f{i}.npy")
        np.save(p, st)
        dom = {"x": [float(x[0]), float(x[-1])], "t": [float(t[0]), float(t[-1])]}
        fc = {"shape": [nx, nt], "domain": dom}
        if rng.random() < 0.3:
            fc.pop("domain")
            x, t = np.linspace(0, 1, nx), np.linspace(0, 1, nt)
        ds = runner.load_dataset({"dataset_file": p, "file_config": fc})
        m.raises(ValueError, lambda: runner.load_dataset({"dataset_file": p, "file_config": {}}), "npy-needs-shape", "")
    else:
        import importlib, types, sys
        from kd.dataset import load_pde_dataset
        # a data package of our own, as data_dir_module allows
        pkg = f"kdv_data_{i}"
        os.makedirs(pkg, exist_ok=True)
        open(os.path.join(pkg, "__init__.py"), "w").close()
        if os.getcwd() not in sys.path:
            sys.path.insert(0, os.getcwd())
        importlib.invalidate_caches()
        sio.savemat(os.path.join(pkg, "d.mat"), {kx: x, kt: t, ku: st})
        with R.quiet():
            ds = load_pde_dataset("d.mat", equation_name="e", x_key=kx, t_key=kt, u_key=ku, data_dir_module=pkg)
            p = os.path.abspath(os.path.join(pkg, "d.mat"))
            none = load_pde_dataset("d.mat", x_key="q", t_key=kt, u_key=ku, data_dir_module=pkg)
        m.check(none is None, "missing-key-gives-nothing", str(none))
        if not m.check(ds is not None, "loads", "loader returned nothing"):
            return
    m.check(ds.usol.shape == (nx, nt), "file-shape", f"{ds.usol.shape} vs {(nx, nt)}")
    m.check(np.allclose(ds.x, x, rtol=0, atol=1e-12 + 1e-9 * np.abs(x).max()) and np.allclose(ds.t, t, rtol=0, atol=1e-12 + 1e-9 * np.abs(t).max()), "file-coordinates", f"kind {kind}")
    m.check(np.array_equal(ds.usol, u), "file-values", f"kind {kind} stored {'(t,x)' if flip else '(x,t)'} {nx}x{nt}: values moved")
    m.distinct(("file", kind, nx, nt, flip))
    m.raises(ValueError, lambda: runner.load_dataset({}), "no-source-refused", "")
    # generic loader
    A = rng.normal(size=(3, 4)).astype(np.float32)
    np.savetxt(f"g{i}.csv", A, delimiter=",", header="a,b,c,d", comments="", fmt="%.9g")
    L = PDEDataLoader(os.getcwd())
    m.check(np.array_equal(np.asarray(L.load_data(equation_name=f"g{i}")), A), "csv-values", "")
    np.save(f"h{i}.npy", A)
    m.check(np.array_equal(L.load_data(file=f"h{i}.npy"), A) and np.array_equal(L.load_data(equation_name=f"h{i}"), A), "npy-values", "")
    m.raises(FileNotFoundError, lambda: L.load_data(equation_name="missing"), "missing-file", "")
