"""T02: each catalogued benchmark satisfies the equation it is catalogued under."""
import numpy as np
from vkit import workload
from vkit import sga_ref as R

PROPERTY = "T02"
RULE = "distinct (benchmark, grid window) pairs on which the catalogued equation was fitted"
REQUIRE = {"benchmark": 8, "window": 30, "regression": 2}

_CACHE = {}


def load(name):
    from kd.dataset import load_pde
    with R.quiet():
        return load_pde(name)


def active():
    from kd.dataset import list_available_datasets
    from kd.dataset._registry import PDE_REGISTRY
    return [n for n in list_available_datasets() if PDE_REGISTRY[n].get("status") == "active"]


def terms_of(sym):
    """terms of the catalogued right-hand side: prefix tokens, top-level additions split"""
    toks = sym.split(",")
    pos = [0]
    two = {"add", "mul", "div", "sub", "diff", "diff2", "diff3"}

    def rec():
        k = toks[pos[0]]
        pos[0] += 1
        if k in two:
            return (k, rec(), rec())
        if k in ("n2", "n3"):
            return (k, rec())
        return k

    def split(t):
        return split(t[1]) + split(t[2]) if t[0] == "add" else [t]
    tree = rec()
    # some catalogue strings leave the last top-level additions implicit
    out = split(tree)
    while pos[0] < len(toks):
        out += split(rec())
    return out


def evaluate(t, u, x, dx):
    if t == "u1":
        return u
    if t == "x1":
        return np.broadcast_to(x[:, None], u.shape)
    k = t[0]
    if k == "diff":
        return R.fd1(evaluate(t[1], u, x, dx), dx, 0)
    if k == "diff2":
        return R.fd2(evaluate(t[1], u, x, dx), dx, 0)
    if k == "diff3":
        return R.fd1(R.fd2(evaluate(t[1], u, x, dx), dx, 0), dx, 0)
    a = [evaluate(c, u, x, dx) for c in t[1:]]
    return {"mul": lambda: a[0] * a[1], "div": lambda: a[0] / a[1], "add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1],
            "n2": lambda: a[0] ** 2, "n3": lambda: a[0] ** 3}[k]()


@workload(quick=16, thorough=160)
def physics(m, rng, i):
    from kd.dataset import get_dataset_sym_true
    names = active()
    name = names[i % len(names)]
    ds = load(name)
    if not m.check(ds is not None, "loads", name):
        return
    m.saw("benchmark")
    x, t, u = (np.array(v) for v in (ds.x, ds.t, ds.usol))          # copies: loads must not share them
    m.check(u.shape == (len(x), len(t)) and np.isrealobj(u) and np.all(np.isfinite(u)), "well-formed", f"{name} {u.shape}")
    for a, c in (("x", x), ("t", t)):
        d = np.diff(c)
        m.check(np.all(d > 0) and np.allclose(d, d[0], rtol=1e-6), "uniform-axes", f"{name} {a}")
    dx, dt = x[1] - x[0], t[1] - t[0]
    ut = R.fd1(u, dt, 1)
    with np.errstate(all="ignore"):
        cols = [evaluate(tr, u, x, dx) for tr in terms_of(get_dataset_sym_true(name))]
    for _ in range(4):
        nx, nt = len(x), len(t)
        a, b = int(rng.integers(4, nx // 4)), int(rng.integers(3 * nx // 4, nx - 4))
        c, d = int(rng.integers(4, nt // 4)), int(rng.integers(3 * nt // 4, nt - 4))
        w = (slice(a, b), slice(c, d))
        F = np.stack([f[w].reshape(-1) for f in cols], 1)
        y = ut[w].reshape(-1)
        coef = np.linalg.lstsq(F, y, rcond=None)[0]
        r2 = 1 - np.mean((y - F @ coef) ** 2) / np.mean(y ** 2)
        m.saw("window")
        m.check(r2 > 0.999, "catalogued-equation-holds", f"{name}: R2={r2}, coefficients {coef}")
        m.distinct((name, a, b, c, d))
    again = load(name)
    m.check(np.array_equal(again.usol, u) and np.array_equal(again.x, x), "reload-identical", name)
    # whatever a caller does to its copy, later loads are the same
    meta = repr((ds.get_domain(), ds.aliases, ds.legacy_name, ds.epi))
    again.usol[...] = 0
    again.x += 1
    again.t *= 3
    for d in (again.get_domain(), again.aliases):
        if d:
            for k in list(d):
                d[k] = (7.0, 11.0)
        if d is not None:
            d["zz"] = "other"
    third = load(name)
    m.check(np.array_equal(third.usol, u) and np.array_equal(third.x, x) and np.array_equal(third.t, t), "loads-are-independent", name)
    now = repr((third.get_domain(), third.aliases, third.legacy_name, third.epi))
    m.check(now == meta, "loads-are-independent", f"{name}: {meta} then {now}")


@workload(quick=4, thorough=16)
def catalogue(m, rng, i):
    from kd.dataset import load_pde, load_regression, list_available_datasets
    names = list_available_datasets()
    m.check(len(set(names)) == len(names) and len(active()) >= 8, "catalogue", str(names))
    n = names[int(rng.integers(len(active())))]
    ds = load(n)
    if ds is not None:
        m.check(ds.equation_name == n and getattr(ds, "registry_name", None) == n, "names-agree", n)
        if ds.get_domain():
            for ax, (lo, hi) in ds.get_domain().items():
                c = getattr(ds, ax)
                m.check(lo <= hi and c.min() - 1e-9 <= hi and lo - 1e-9 <= c.max(), "domain-overlaps-data", f"{n} {ax}")
    m.raises(ValueError, lambda: load_pde("no-such-set"), "unknown-refused", "")
    for r in ("tlc_cc_t1", "tlc_cc_t2"):
        X, y, meta = load_regression(r)
        m.saw("regression")
        m.check(X.ndim == 2 and y.shape == (len(X),) and X.shape[1] == len(meta["var_names"]) and np.all(np.isfinite(X)) and np.all(np.isfinite(y)), "regression-shape", r)
        # the response is the remaining column, never one of the inputs
        m.check(not any(np.array_equal(X[:, k], y) for k in range(X.shape[1])), "regression-target-not-input", r)
        keep = X.copy(), y.copy(), repr(meta)
        X[...] = 0
        y[...] = 1
        meta["var_names"].append("w")
        meta["source"] = "?"
        again = load_regression(r)
        m.check(np.array_equal(again[0], keep[0]) and np.array_equal(again[1], keep[1]) and repr(again[2]) == keep[2], "loads-are-independent", f"{r}: {keep[2]} then {again[2]}")
    m.raises(ValueError, lambda: load_regression("nope"), "unknown-refused", "")
    m.distinct(("catalogue", n))
