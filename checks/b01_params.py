"""B01: estimators keep, report and obey their parameters, and the public names resolve."""
import copy, importlib, os, subprocess, sys, tempfile, types
import numpy as np
from vkit import workload, Discard
import vkit
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "B01"
RULE = "distinct (estimator, parameter setting, change) cases whose reported and effective parameters were compared with the setting"
REQUIRE = {"refit": 40, "read": 150, "set": 150, "effect": 30, "pysr": 60, "refused": 80, "name": 60, "process": 6, "nested": 60, "handed": 100}
ASSUME = ["PySR itself is not installed; its wrapper is observed against a recording stand-in",
          "two fits with equal parameters and data are compared by their full results"]

OPS2, OPS1 = ["add", "sub", "mul", "div", "diff", "diff2"], ["n2", "n3", "sin", "cos"]
DLGA_OPS = ["u", "u_x", "u_t", "u_xx", "u_xxx", "u_tt"]


def sub(rng, pool, lo=1):
    return [str(v) for v in rng.permutation(pool)[:int(rng.integers(lo, len(pool) + 1))]]


GEN = {
    "KD_SGA": dict(sga_run=lambda r: int(r.integers(1, 9)), num=lambda r: int(r.integers(2, 30)), depth=lambda r: int(r.integers(1, 6)),
                   width=lambda r: int(r.integers(1, 7)), p_var=lambda r: float(r.random()), p_mute=lambda r: float(r.random()),
                   p_cro=lambda r: float(r.random()), seed=lambda r: int(r.integers(1 << 30)), use_autograd=lambda r: bool(r.random() < .5),
                   max_epoch=lambda r: int(r.integers(1, 1000)), use_metadata=lambda r: bool(r.random() < .5),
                   delete_edges=lambda r: bool(r.random() < .5), target_field=lambda r: [None, "u", "v"][r.integers(3)],
                   lhs_axis=lambda r: [None, "t", "x"][r.integers(3)], primary_spatial_axis=lambda r: [None, "x", "y"][r.integers(3)]),
    "DLGA": dict(epi=lambda r: float(r.random()), input_dim=lambda r: int(r.integers(1, 5)), max_iter=lambda r: int(r.integers(1, 1000))),
    "KD_DLGA": dict(epi=lambda r: float(r.random()), input_dim=lambda r: int(r.integers(1, 5)), max_iter=lambda r: int(r.integers(1, 1000)),
                    operators=lambda r: sub(r, DLGA_OPS), verbose=lambda r: bool(r.random() < .5)),
    "KD_PySR": dict(niterations=lambda r: int(r.integers(1, 99)), binary_operators=lambda r: [None, ["+"], ["+", "*"]][r.integers(3)],
                    unary_operators=lambda r: [None, ["sin"], []][r.integers(3)],
                    extra_model_kwargs=lambda r: [{}, {"progress": False}, {"maxsize": 9, "progress": True}][r.integers(3)]),
}
DISC = dict(n_iterations=lambda r: int(r.integers(1, 9)), n_samples_per_batch=lambda r: int(r.integers(5, 30)),
            binary_operators=lambda r: sub(r, OPS2), unary_operators=lambda r: sub(r, OPS1, 0), out_path=lambda r: [None, "./log/", "/tmp/x/"][r.integers(3)],
            core_num=lambda r: int(r.integers(1, 3)), seed=lambda r: int(r.integers(1 << 30)),
            config_out=lambda r: [None, {"controller": {"num_units": int(r.integers(4, 40))}}, {"training": {"epsilon": 0.3}}][r.integers(3)])
for _n in ("KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"):
    GEN[_n] = DISC
NEEDED = {"DLGA": ["epi", "input_dim"], "KD_DLGA": ["epi", "input_dim", "operators"]}


def cls(name):
    import kd.model
    return getattr(kd.model, name)


def draw(rng, name, required=True):
    g = GEN[name]
    keys = [k for k in g if rng.random() < 0.5 or required and k in NEEDED.get(name, [])]
    return {k: g[k](rng) for k in keys}


@workload(quick=210, thorough=3000)
def parameters(m, rng, i):
    """read, clone, change"""
    name = list(GEN)[i % len(GEN)]
    C = cls(name)
    given = draw(rng, name)
    keep = copy.deepcopy(given)
    with R.quiet():
        e = C(**given)
        default = {k: v for k, v in C(**{k: GEN[name][k](rng) for k in NEEDED.get(name, [])}).get_params().items() if k not in NEEDED.get(name, [])}
    p = e.get_params()
    m.saw("read")
    label = f"{name}({given})"
    m.check(set(p) == set(GEN[name]), "names", f"{label}: {sorted(p)}")
    want = {**default, **given}
    m.check(p == want, "reads-what-was-given", lambda: f"{label}: {p}")
    m.check(given == keep, "inputs-unchanged", label)
    text = repr(e)
    m.check(text.startswith(name + "(") and all(k in text and repr(v) in text for k, v in p.items()), "repr", f"{label}: {text}")
    with R.quiet():
        f = C(**p)
    m.check(f.get_params() == p and f is not e, "clone", label)
    change = {k: v for k, v in draw(rng, name, required=False).items()}
    with R.quiet():
        r = f.set_params(**copy.deepcopy(change))
    m.check(r is f, "set-returns-self", label)
    m.check(f.get_params() == {**p, **change}, "sets-exactly-these", lambda: f"{label} then {change}: {f.get_params()}")
    m.check(e.get_params() == p, "other-estimators-unchanged", f"{label} then {change}")
    m.saw("set")
    bad = str(rng.choice(["nope", "Seed", "epi2", "n_iter", "seed_", "input_dim__x", "config"]))
    m.raises((ValueError, AttributeError), lambda: f.set_params(**{bad: 1}), "unknown-refused", f"{name}.{bad}")
    m.saw("refused")
    m.distinct((name, str(given), str(change)))
    if name == "KD_DLGA":
        m.raises(ValueError, lambda: C(operators=["u", "w_x"], epi=0.1, input_dim=2), "unknown-operator-refused", "construct")
        m.raises(ValueError, lambda: f.set_params(operators=["u_xt"]), "unknown-operator-refused", "set")


@workload(quick=36, thorough=400, timeout=120)
def effects(m, rng, i):
    """a changed estimator behaves like one constructed that way, and fitting leaves parameters alone"""
    kind = ["KD_Discover", "KD_DLGA", "KD_SGA", "KD_Discover_Regression"][i % 4]
    C = cls(kind)
    seed = int(rng.integers(1 << 20))
    base = draw(rng, kind)
    change = draw(rng, kind, required=False)
    for d in (base, change):
        if "out_path" in d:
            d["out_path"] = None
    if kind in ("KD_Discover", "KD_Discover_Regression"):
        base.update(out_path=None)
        if kind == "KD_Discover":
            change["binary_operators"] = ["add", "mul", "diff"] + ([] if rng.random() < .5 else ["sub", "diff2"])
            ds = D.gen_problem(rng, 1, params=False)[0]
        else:
            fix = lambda d: {k: [o for o in v if o not in ("diff", "diff2")] or ["add"] if k == "binary_operators" else v for k, v in d.items()}
            base, change = fix(base), fix(change)
            base.setdefault("binary_operators", ["add", "mul"])
            base.update(n_iterations=int(rng.integers(1, 4)), n_samples_per_batch=int(rng.integers(5, 12)))
            X = rng.normal(size=(15, 2))
            y = X[:, 0] * 2 + X[:, 1]

        def observe(e):
            if kind == "KD_Discover":
                e.import_dataset(ds)
            else:
                from kd.model.discover.program import Program
                Program.clear_cache()
                try:
                    res = e.fit(X, y)
                except TypeError:
                    raise Discard("nothing could be evaluated")
            from kd.model.discover.program import Program
            out = [list(Program.library.names), e.searcher.batch_size, e.searcher.n_iterations, e.config["controller"]["num_units"],
                   e.config["training"]["epsilon"], e.controller.sample_episodes(e.searcher.batch_size)[0].numpy().tolist()]
            return out + ([] if kind == "KD_Discover" else [res["expression"], float(res["reward"])])
    elif kind == "KD_DLGA":
        def observe(e):
            import random
            random.seed(seed)
            e.max_length, e.pop_size = 4, 6
            g = [e.random_genome() for _ in range(20)]
            n = len(e.operators)
            m.check(all(0 <= v < n for c in g for t in c for v in t), "genes-within-the-operators", f"{e}: {g}")
            return [g, e.epi, e.max_iter, e.library_size, [tuple(q.shape) for q in e.Net.parameters()]]
    else:
        ds = D.gen_problem(rng, 1, params=False, n=(9, 9))[0]
        small = dict(sga_run=1, num=3, depth=2, width=2, use_autograd=False, use_metadata=False, target_field=None, lhs_axis=None, primary_spatial_axis=None)
        base.update(small)
        change = {k: v for k, v in change.items() if k not in small}
        change["num"] = int(rng.integers(2, 5))

        def observe(e):
            e.fit_dataset(ds)
            return [e.best_score_ if hasattr(e, "best_score_") else None, e.equation_latex()]
    with R.quiet(), np.errstate(all="ignore"):
        a, b = C(**base), C(**{**base, **change})
        a.set_params(**copy.deepcopy(change))
        pa = a.get_params()
        oa = observe(a)
        ob = observe(b)
    m.saw("effect")
    m.check(repr(oa) == repr(ob), "setting-takes-effect", lambda: f"{kind} {base} then {change}: {str(oa)[:300]} / {str(ob)[:300]}")
    m.check(a.get_params() == pa and b.get_params() == pa, "fitting-leaves-parameters", lambda: f"{kind} {pa}: {a.get_params()}")
    m.distinct((kind, str(base), str(change)))


@workload(quick=120, thorough=1500)
def handed_on(m, rng, i):
    """what the estimators hand to the solvers and networks they build"""
    import torch
    if i % 2:
        C, name = cls("KD_SGA"), "KD_SGA"
        ds = D.gen_problem(rng, 1, params=False, n=(9, 9))[0]
        seen = []

        class Solver:
            best_equation_details_ = None

            def __init__(self, config):
                seen.append(config)

            def run(self, context):
                seen.append(context)
                return "eq", 1.5
        e = C(**draw(rng, name))
        for k in range(int(rng.integers(1, 4))):
            if k:
                e.set_params(**draw(rng, name))
            p = e.get_params()
            seen.clear()
            with R.quiet():
                e.fit_dataset(ds, context_cls=lambda config: ("context", config), solver_cls=Solver)
            cfg = seen[0]
            got = {n: getattr(cfg, n) for n in p}
            auto = {"target_field": "u", "lhs_axis": "t"}
            want = {n: auto.get(n) if v is None else v for n, v in p.items()}
            m.check(got == want, "solver-gets-the-parameters", lambda: str({n: (got[n], want[n]) for n in p if got[n] != want[n]}))
            m.check(len(seen) == 2 and seen[1] == ("context", cfg), "one-configuration", str(len(seen)))
            m.check(e.get_params() == p and (e.best_pde_, e.best_score_) == ("eq", 1.5), "solver-result-kept", str(p))
            m.saw("handed")
            m.distinct((name, str(p)))
        return
    name = ["DLGA", "KD_DLGA"][i // 2 % 2]
    with R.quiet():
        e = cls(name)(**draw(rng, name))
        for k in range(int(rng.integers(1, 6))):
            if k:
                e.set_params(**draw(rng, name, required=False))
            d = e.input_dim
            n = int(rng.integers(1, 6))
            m.check(next(e.Net.parameters()).shape[1] == d, "network-takes-the-inputs", f"{e}: {next(e.Net.parameters()).shape}")
            m.check(tuple(e.Net(torch.zeros(n, d, device=e.device)).shape) == (n, 1), "network-takes-the-inputs", f"{e}")
            if name == "KD_DLGA":
                m.check(e.library_size == len(e.operators), "library-follows-operators", f"{e}: {e.library_size}")
            m.saw("handed")
    m.distinct((name, repr(e)))


class Recorder:
    """stands in for pysr.PySRRegressor"""
    made = []

    def __init__(self, **kw):
        self.kw, self.calls = copy.deepcopy(kw), []
        Recorder.made.append(self)

    def fit(self, X, y):
        self.calls.append(("fit", np.array(X), np.array(y)))
        self.coef = np.arange(1, X.shape[1] + 1)

    def predict(self, X):
        self.calls.append(("predict", np.array(X)))
        return X @ self.coef


def stub(rng):
    import sympy as sp
    kind = int(rng.integers(4))
    body = {}
    x0 = sp.Symbol("x0")
    expr = sp.sin(x0) * int(rng.integers(2, 9)) + int(rng.integers(1, 9))
    if kind != 3:
        body["get_best"] = lambda self: {"equation": str(expr), "loss": 0.1}
        body["sympy"] = lambda self: expr
    if kind == 0:
        body["latex"] = lambda self: sp.latex(expr)
    elif kind == 1:
        def boom(self):
            raise RuntimeError("no latex")
        body["latex"] = boom
    body["__str__"] = lambda self: "model:" + str(expr)
    return type("Stub", (Recorder,), body), kind, expr


@workload(quick=80, thorough=1200)
def pysr(m, rng, i):
    """the PySR wrapper hands everything through"""
    import sympy as sp
    import kd.model.kd_pysr as K
    S, kind, expr = stub(rng)
    given = draw(rng, "KD_PySR")
    e = K.KD_PySR(**given)
    label = f"{given} stub {kind}"
    old, old_mod = K._PySRRegressor, sys.modules.get("pysr")
    fake = types.ModuleType("pysr")
    fake.PySRRegressor = S
    K._PySRRegressor, sys.modules["pysr"] = None, fake
    try:
        m.raises(RuntimeError, lambda: e.predict(np.ones((2, 2))), "unfitted-refused", label)
        m.raises(RuntimeError, e.equation_latex, "unfitted-refused", label)
        n, d = int(rng.integers(1, 12)), int(rng.integers(1, 5))
        X, y = rng.normal(size=(n, d)), rng.normal(size=n)
        m.raises(ValueError, lambda: e.fit(X.ravel(), y), "shape-refused", label)
        m.raises(ValueError, lambda: e.fit(X, np.append(y, 1.0)), "shape-refused", label)
        m.saw("refused", 4)
        Recorder.made.clear()
        x0, y0 = X.copy(), y.copy()
        r = e.fit(X.tolist() if rng.random() < .3 else X, y.reshape(-1, 1) if rng.random() < .5 else y)
        m.check(r is e, "fit-returns-self", label)
        if not m.check(len(Recorder.made) == 1, "one-backend", f"{label}: {len(Recorder.made)}"):
            return
        back = Recorder.made[0]
        want = {"niterations": e.niterations, **{k: v for k in ("binary_operators", "unary_operators") if (v := given.get(k)) is not None},
                **given.get("extra_model_kwargs", {})}
        m.check(back.kw == want, "backend-parameters", f"{label}: {back.kw}")
        m.check(np.array_equal(back.calls[0][1], x0) and np.array_equal(back.calls[0][2], y0), "backend-data", label)
        m.check(np.array_equal(X, x0) and np.array_equal(y, y0), "inputs-unchanged", label)
        Z = rng.normal(size=(int(rng.integers(1, 9)), d))
        got = e.predict(Z)
        m.check(np.array_equal(np.asarray(got), Z @ back.coef), "prediction", label)
        text = e.equation_latex()
        lhs = str(rng.choice(["y", "z"]))
        if kind == 0:
            m.check(sp.latex(expr) in text, "latex", f"{label}: {text}")
        elif kind in (1, 2):
            m.check(e.equation_latex(lhs) == f"{lhs} = {sp.latex(expr)}", "latex", f"{label}: {text}")
        m.check(e.best_equation_ == (str(expr) if kind != 3 else "model:" + str(expr)), "best-equation", f"{label}: {e.best_equation_}")
        m.check(np.array_equal(e.X_train_, x0) and np.array_equal(e.y_train_, y0), "training-data-kept", label)
        m.saw("pysr")
        # new settings take effect in the next fit
        change = draw(rng, "KD_PySR")
        e.set_params(**copy.deepcopy(change))
        given = {**given, **change}
        Recorder.made.clear()
        X, y = rng.normal(size=(n + 1, d)), rng.normal(size=n + 1)
        with R.quiet():
            e.fit(X, y)
        used = [b for b in Recorder.made if b.calls] or [back]
        want = {"niterations": e.niterations, **{k: v for k in ("binary_operators", "unary_operators") if (v := given.get(k)) is not None},
                **given.get("extra_model_kwargs", {})}
        m.check(used[-1].kw == want, "backend-parameters", lambda: f"{label} then {change}: {used[-1].kw}")
        m.check(np.array_equal(used[-1].calls[-1][1], X) and np.array_equal(used[-1].calls[-1][2], y), "backend-data", label)
        Z = rng.normal(size=(3, d))
        m.check(np.array_equal(np.asarray(e.predict(Z)), Z @ used[-1].coef), "prediction", label)
        m.check(e.get_params(deep=False) == {**e.get_params(deep=False), **change}, "fitting-leaves-parameters", label)
        m.saw("refit")
        m.distinct((label, n, d))
    finally:
        K._PySRRegressor = old
        if old_mod is None:
            del sys.modules["pysr"]
        else:
            sys.modules["pysr"] = old_mod


@workload(quick=80, thorough=1000)
def nested(m, rng, i):
    """estimators inside estimators"""
    from kd.base import BaseEstimator

    class Inner(BaseEstimator):
        def __init__(self, a=1, b="x"):
            self.a, self.b = a, b

    class Outer(BaseEstimator):
        def __init__(self, inner=None, c=3, a=0):
            self.inner, self.c, self.a = inner, c, a
    ia, ib, c, a = (int(v) for v in rng.integers(0, 100, 4))
    inner = Inner(ia, ib)
    o = Outer(inner, c, a)
    m.check(o.get_params(deep=False) == {"inner": inner, "c": c, "a": a}, "shallow", repr(o))
    m.check(o.get_params() == {"inner": inner, "inner__a": ia, "inner__b": ib, "c": c, "a": a}, "deep", repr(o))
    change = {k: int(rng.integers(100, 200)) for k in ("c", "a", "inner__a", "inner__b") if rng.random() < 0.6}
    o.set_params(**change)
    want = {"inner": inner, "inner__a": ia, "inner__b": ib, "c": c, "a": a, **change}
    m.check(o.get_params() == want, "nested-set", f"{change}: {o.get_params()}")
    m.raises(ValueError, lambda: o.set_params(inner__zz=1), "unknown-refused", "inner__zz")
    m.raises(ValueError, lambda: o.set_params(zz=1), "unknown-refused", "zz")
    m.check(o.get_params() == want, "refusal-changes-nothing", f"{change}")
    other = Inner(-1, -2)
    o.set_params(inner=other)
    m.check(o.inner is other and inner.a == want["inner__a"], "replace-nested", f"{change}")
    # a new part and its settings in one call, in either order; and three levels
    third = Inner(-3, -4)
    both = {"inner": third, "inner__a": ia + 1, "inner__b": ib + 2}
    o.set_params(**{k: both[k] for k in rng.permutation(list(both))})
    m.check(o.inner is third and (third.a, third.b) == (ia + 1, ib + 2) and (other.a, other.b) == (-1, -2), "replace-and-set", f"{vars(third)} {vars(other)}")
    top = Outer(o, c + 1, a + 1)
    deep = {"inner": o, "c": c + 1, "a": a + 1, "inner__inner": third, "inner__c": want["c"], "inner__a": want["a"],
            "inner__inner__a": ia + 1, "inner__inner__b": ib + 2}
    m.check(top.get_params() == deep, "deep", lambda: f"three levels: {top.get_params()}")
    change = {k: int(rng.integers(200, 300)) for k in ("a", "inner__c", "inner__inner__a", "inner__inner__b") if rng.random() < 0.6}
    m.check(top.set_params(**change) is top and top.get_params() == {**deep, **change}, "nested-set", lambda: f"three levels {change}: {top.get_params()}")
    m.saw("nested")
    m.saw("refused", 2)
    m.distinct(("nested", ia, ib, c, a, str(change)))


MODULES = ["kd", "kd.model", "kd.dataset", "kd.viz"]


@workload(quick=1, thorough=1, fixed=True)
def names(m, rng, i):
    for mod in MODULES:
        M = importlib.import_module(mod)
        for n in M.__all__:
            try:
                v = getattr(M, n)
            except AttributeError:
                v = None
                try:
                    v = importlib.import_module(f"{mod}.{n}")
                except ImportError:
                    pass
            m.check(v is not None, "public-name-resolves", f"{mod}.{n}")
            m.check(getattr(M, n) is v, "public-name-stable", f"{mod}.{n}")
            m.saw("name")
            m.distinct((mod, n))
        m.raises(AttributeError, lambda: getattr(M, "no_such_name"), "unknown-name-refused", mod)
    import kd, kd.model
    for n in ("DLGA", "KD_DLGA", "KD_Discover", "KD_Discover_SPR", "KD_Discover_Regression"):
        m.check(getattr(kd, n) is getattr(kd.model, n), "same-object-everywhere", n)
        m.check(getattr(kd, n).__name__ == n, "right-object", n)
    for n in kd.model.__all__:
        m.check(getattr(kd.model, n).__name__ == n, "right-object", n)


@workload(quick=8, thorough=40, timeout=120)
def processes(m, rng, i):
    """a fresh interpreter can import the public names in any order"""
    import kd, kd.model, kd.dataset, kd.viz
    pairs = [(mod, n) for mod in MODULES for n in sys.modules[mod].__all__]
    pick = [pairs[k] for k in rng.permutation(len(pairs))[:8]]
    lines = ["import sys", f"sys.path.insert(0, {str(vkit.REPO)!r})"]
    if i < len(MODULES):
        lines += [f"from {MODULES[i]} import *", f"import {MODULES[i]} as M", "assert all(n in globals() for n in M.__all__), [n for n in M.__all__ if n not in globals()]"]
    else:
        lines += [f"from {a} import {b}" for a, b in pick]
    with tempfile.TemporaryDirectory() as tmp:
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", "\n".join(lines)], capture_output=True, text=True, timeout=100, cwd=tmp)
        m.check(r.returncode == 0, "fresh-import", f"{lines[2:]}: {r.stderr[-300:]}")
        m.check(os.listdir(tmp) == [], "import-writes-nothing", f"{os.listdir(tmp)}")
    m.saw("process")
    m.distinct(("process", tuple(lines)))
