"""D07: a symbolic regression result states the expression that was found and predict evaluates it."""
import copy, math
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "D07"
RULE = "distinct (operators, variables, sampled expression) fits and programs whose predictions and scores were recomputed"
REQUIRE = {"fit": 40, "program": 800, "constant": 300, "prediction": 100, "named": 100, "refused": 30}
ASSUME = ["an expression whose evaluation meets any floating point exception may be given reward 0",
          "constants are fitted by a local optimiser from 1; only 'no worse than the start' is judged"]

FN1 = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "exp": np.exp, "log": np.log, "sqrt": np.sqrt, "n2": lambda a: a * a,
       "n3": lambda a: a * a * a, "n4": lambda a: a ** 4.0, "n5": lambda a: a ** 5.0, "neg": lambda a: -a, "abs": np.abs, "tanh": np.tanh,
       "inv": lambda a: np.divide(1.0, a), "logabs": lambda a: np.log(np.abs(a)), "expneg": lambda a: np.exp(-a), "sigmoid": lambda a: 1 / (1 + np.exp(-a))}
FN2 = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: np.divide(a, b)}

GUARD = False       # are the protected variants of the operators in use


def guarded(n):
    """the protected variant of an operator, as its name and its constants promise"""
    def inside(f):
        def g(*a):
            with np.errstate(all="ignore"):
                return f(*(np.asarray(v, dtype=float) for v in a))
        return g
    return {"div": inside(lambda a, b: np.where(np.abs(b) > 0.001, a / b, 1.0)), "exp": inside(lambda a: np.where(a < 100, np.exp(a), 0.0)),
            "log": inside(lambda a: np.where(np.abs(a) > 0.001, np.log(np.abs(a)), 0.0)), "logabs": inside(lambda a: np.where(np.abs(a) > 0.001, np.log(np.abs(a)), 0.0)),
            "sqrt": inside(lambda a: np.sqrt(np.abs(a))), "inv": inside(lambda a: np.where(np.abs(a) > 0.001, 1.0 / a, 0.0)),
            "expneg": inside(lambda a: np.where(a > -100, np.exp(-a), 0.0)), "n2": inside(lambda a: np.where(np.abs(a) < 1e6, a * a, 0.0)),
            "n3": inside(lambda a: np.where(np.abs(a) < 1e6, a ** 3, 0.0)), "n4": inside(lambda a: np.where(np.abs(a) < 1e6, a ** 4, 0.0)),
            "sigmoid": inside(lambda a: 1 / (1 + np.where(a > -100, np.exp(-a), 0.0)))}.get(n)


def fn(n):
    return (GUARD and guarded(n)) or FN2.get(n) or FN1.get(n)


def value(names, X, leaf):
    """evaluate a pre-order list of names; leaf(name) gives operands"""
    pos = 0

    def rec():
        nonlocal pos
        n = names[pos]
        pos += 1
        if n in FN2:
            a = rec()
            return fn(n)(a, rec())
        if n in FN1:
            return fn(n)(rec())
        return leaf(n)
    with np.errstate(all="ignore"):
        out = rec()
    if pos != len(names):
        raise ValueError("trailing names")
    return np.broadcast_to(np.asarray(out, dtype=float), (len(X),))


def plain(X, consts):
    it = iter(consts)

    def leaf(n):
        if n == "const":
            return float(next(it))
        if n[0] == "x" and n[1:].isdigit():
            return X[:, int(n[1:]) - 1]
        return float(n)
    return leaf


def tokens_of(p):
    return [t.name for t in p.traversal]


def exceptional(names, X, consts):
    """does evaluating meet a floating point exception"""
    pos = 0
    leaf = plain(X, consts)
    try:
        with np.errstate(all="raise"):
            def rec():
                nonlocal pos
                n = names[pos]
                pos += 1
                if n in FN2:
                    a = rec()
                    return fn(n)(a, rec())
                if n in FN1:
                    return fn(n)(rec())
                return np.asarray(leaf(n), dtype=float)
            out = rec()
        return not np.all(np.isfinite(out))
    except FloatingPointError:
        return True


def problem(rng):
    n, d = int(rng.integers(5, 60)), int(rng.choice([1, 2, 3, 4, 11]))
    X = rng.normal(size=(n, d)) * float(rng.choice([0.5, 1.0, 3.0])) + float(rng.choice([0.0, 2.0]))
    a, b, c = rng.normal(size=3) * 2
    i, j = rng.integers(0, d, 2)
    y = [a * X[:, i] + b, a * X[:, i] * X[:, j], a * np.sin(X[:, i]) + c * X[:, j], rng.normal(size=n), a * X[:, i] ** 2 + b * X[:, j] + c][rng.integers(5)]
    y = y * 10.0 ** int(rng.choice([0, 0, 0, 3, -4]))         # any unit
    pools = [["add", "mul"], ["add", "sub", "mul", "div"], ["add", "mul", "sin", "n2"], ["mul", "sub", "cos", "exp"],
             ["add", "div", "neg", "abs", "n3"], ["add", "mul", "sqrt", "log"], ["add", "mul", "tanh", "sigmoid", "expneg", "inv"], []]
    ops = pools[rng.integers(len(pools))]
    if ops and rng.random() < 0.5:
        ops = ops + ["const"]
    default = [f"x{k + 1}" for k in range(d)]
    kind = int(rng.integers(6))
    names = {0: None, 1: default[::-1], 2: [str(v) for v in rng.permutation(default)], 3: [f"max{k + 1}" for k in range(d)],
             4: ["time", "x1_rate", "Ax2", "x3x1", *[f"q{k}" for k in range(20)]][:d], 5: [f"T{k}" for k in range(d)]}[kind]
    return X, y, ops, names, default


def judge(m, X, y, p, parsimony=0.0, label=""):
    """one evaluated program"""
    r = float(np.nan_to_num(p.r_ridge, nan=0.0))        # the search treats an undefined reward as 0
    names, cs = tokens_of(p), p.get_constants()
    m.saw("program")
    m.saw("constant", len(cs))
    if not m.check(len(cs) == names.count("const") and D.arity("const") == 0, "constants-count", label):
        return None
    want = value(names, X, plain(X, cs))
    if p.invalid or r == 0.0:
        with np.errstate(all="ignore"):
            vast = not np.isfinite(np.sum((y - want) ** 2) / max(float(np.var(y)), 1e-12))
        m.check(r == 0.0 and (exceptional(names, X, cs) or parsimony * len(names) >= 1 or vast),
                "only-exceptional-expressions-refused", lambda: f"{label} {names} {cs} r {r} {p.invalid} {p.error_type} {p.error_node}")
        return None
    if not np.all(np.isfinite(want)):
        m.check(False, "finite-only", f"{label} {names} {cs}: r {r}")
        return None
    mse = np.mean((y - want) ** 2)
    acc = 1 / (1 + math.sqrt(mse / max(float(np.var(y)), 1e-12)))
    acc *= max(0.0, 1 - parsimony * len(names))
    m.check(abs(acc - r) <= 1e-7 * (1 + abs(acc)), "reward", lambda: f"{label} {names} {cs}: {r} instead of {acc}")
    if cs:
        ones = value(names, X, plain(X, [1.0] * len(cs)))
        e0 = np.mean((y - ones) ** 2)
        if np.isfinite(e0) and not exceptional(names, X, [1.0] * len(cs)):
            m.check(mse <= e0 * (1 + 1e-9) + 1e-12, "constants-not-worse-than-start", lambda: f"{label} {names} {cs}: {mse} against {e0} at 1")
    return mse


def run(rng, X, y, ops, names, seed, parsimony=0.0, **kw):
    from kd.model.kd_discover_regression import KD_Discover_Regression
    cfg = {"task": {"parsimony_coeff": parsimony}} if parsimony else None
    b = [o for o in ops if o in FN2]
    mod = KD_Discover_Regression(n_iterations=int(rng.integers(1, 3)), n_samples_per_batch=int(rng.integers(12, 30)), binary_operators=b,
                                 unary_operators=[o for o in ops if o not in b], out_path=None, seed=seed, config_out=cfg, **kw)
    log = []
    real = mod.make_controller

    def controller():
        from kd.model.discover.program import from_tokens
        c = real()
        sample = c.sample_episodes

        def watched(n):
            out = sample(n)
            log.append(out[0].numpy().copy())
            return out
        c.sample_episodes = watched
        return c
    mod.make_controller = controller
    with R.quiet():
        res = mod.fit(X, y, var_names=names)
    return mod, res, log


@workload(quick=60, thorough=800, timeout=120)
def fits(m, rng, i):
    from kd.model.discover.program import Program, from_tokens
    X, y, ops, names, default = problem(rng)
    pars = float(rng.choice([0.0, 0.0, 0.0, 0.02, 0.2, 0.5]))
    keep = X.copy(), y.copy(), None if names is None else list(names), list(ops)
    try:
        mod, res, log = run(rng, X, y, ops, names, int(rng.integers(1 << 20)), pars)
    except TypeError as e:
        # nothing that could be evaluated was sampled
        ps = list(Program.cache.values())
        if ps and all(p.r_ridge == 0 for p in ps):
            raise Discard("no valid expression in the sample")
        raise
    m.saw("fit")
    label = f"ops {ops} d {X.shape[1]} names {names}"
    m.check(np.array_equal(keep[0], X) and np.array_equal(keep[1], y) and keep[2] == names and keep[3] == ops, "inputs-unchanged", label)
    lib = set(Program.library.names)
    allowed = set(ops or ["add", "mul", "div"]) | {"const"} | set(default)
    m.check(lib == allowed, "vocabulary", f"{label}: {sorted(lib ^ allowed)}")
    best = -1.0
    progs = [from_tokens(a) for acts in log for a in acts]
    for p in progs:
        judge(m, X, y, p, pars, label)
        best = max(best, float(np.nan_to_num(p.r_ridge, nan=0.0)))
        m.distinct((tuple(tokens_of(p)), X.shape))
    p = res["program"]
    m.check(p is mod.best_program_ and res is mod.result_, "result-kept", label)
    m.close(res["reward"], best, "best-of-everything-sampled", rtol=1e-12, msg=label)
    m.close(res["reward"], float(p.r_ridge), "reward-of-the-program", rtol=1e-12, msg=label)
    nm, cs = tokens_of(p), res["constants"]
    m.check(list(map(float, cs)) == p.get_constants(), "constants", label)
    fitted = value(nm, X, plain(X, cs))
    m.close(res["mse"], np.mean((y - fitted) ** 2), "mse", rtol=1e-7, atol=1e-18, msg=f"{label} {nm} {cs}")
    # the printed expression
    parts = res["expression"].split(",")
    m.check(len(parts) == len(nm) and all(a == b or (b == "const" and _num(a)) for a, b in zip(parts, nm)), "expression-is-the-program",
            f"{label}: {res['expression']} for {nm}")
    shown = [float(a) for a, b in zip(parts, nm) if b == "const"]
    m.check(all(abs(s - c) <= 1e-5 * abs(c) + 1e-300 for s, c in zip(shown, cs)), "shown-constants", f"{label}: {shown} for {cs}")
    use = names or default
    want = [use[int(a[1:]) - 1] if b in default else a for a, b in zip(parts, nm)]
    m.check(res["expression_named"].split(",") == want, "named-expression", f"{label}: {res['expression_named']} instead of {want}")
    m.check(res["var_names"] == list(use), "names-kept", label)
    # predictions
    for k in range(3):
        Z = X if k == 0 else rng.normal(size=(int(rng.integers(1, 30)), X.shape[1])) * 2 + 1
        z0 = Z.copy()
        with R.quiet(), np.errstate(all="ignore"):
            got = mod.predict(Z)
        w = value(nm, Z, plain(Z, cs))
        m.saw("prediction")
        m.check(got.shape == (len(Z),) and np.allclose(got, w, rtol=1e-9, atol=1e-12, equal_nan=True), "prediction",
                lambda: f"{label} {nm} {cs} on {Z.shape}: {got[:4]} instead of {w[:4]}")
        m.check(np.array_equal(Z, z0), "inputs-unchanged", label)
    with R.quiet(), np.errstate(all="ignore"):
        got = mod.predict(X[::-1].tolist())
    m.check(np.allclose(got, fitted[::-1], rtol=1e-9, atol=1e-12, equal_nan=True), "prediction-row-by-row", label)
    # other fits do not change what this model predicts
    if i % 3 == 0:
        other(rng, i)
        with R.quiet(), np.errstate(all="ignore"):
            got = mod.predict(X)
        m.check(np.allclose(got, fitted, rtol=1e-9, atol=1e-12, equal_nan=True), "prediction-survives-other-models", label)


def _num(a):
    try:
        return math.isfinite(float(a))
    except ValueError:
        return False


def other(rng, i):
    """another model is fitted in the same process"""
    import shutil, tempfile, os
    with R.quiet():
        if (i // 3) % 3 == 0:
            from kd.model.kd_discover import KD_Discover
            ds, env, _ = D.gen_problem(rng, 1)
            q = KD_Discover(n_iterations=1, n_samples_per_batch=10, out_path=None, seed=3)
            q.import_dataset(ds)
            q.train(n_epochs=1, verbose=False)
        elif (i // 3) % 3 == 1:
            X = rng.normal(size=(12, 2))
            run(rng, X, X[:, 0] + X[:, 1], ["add", "mul"], None, 5)
        else:
            from kd.model.kd_discover import KD_Discover_SPR
            ds, env, _ = D.gen_problem(rng, 1, params=False)
            tmp = tempfile.mkdtemp(prefix="d07_")
            try:
                q = KD_Discover_SPR(n_iterations=1, n_samples_per_batch=10, out_path=tmp + os.sep, seed=1,
                                    config_out={"pinn": {"number_layer": 2, "n_hidden": 6}})
                q.import_dataset(ds, sample_ratio=0.3, colloc_num=20)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)


@workload(quick=80, thorough=1000, timeout=60)
def programs(m, rng, i):
    """expressions handed to the same machinery directly, constants included, with plain and protected operators"""
    global GUARD
    try:
        expressions(m, rng, i)
    finally:
        GUARD = False


def expressions(m, rng, i):
    from kd.model.discover.program import Program, from_str_tokens
    from kd.model.discover.task import set_task
    X, y, ops, names, default = problem(rng)
    ops = [o for o in ops if o != "const"] or ["add", "mul", "div"]
    pars = float(rng.choice([0.0, 0.03]))
    Program.clear_cache()
    global GUARD
    GUARD = i % 4 == 3
    with R.quiet():
        set_task({"protected": GUARD, "task_type": "regression", "dataset": "d", "function_set": ops + ["const"], "metric": "inv_nrmse", "metric_params": (),
                  "threshold": 1e-10, "parsimony_coeff": pars},
                 {"X": [X[:, k:k + 1] for k in range(X.shape[1])], "y": y.reshape(-1, 1), "n_input_var": X.shape[1]})
        Program.set_const_optimizer("scipy")
    leaves = default[:4] + ["const", "const"]

    def tree(depth):
        if depth == 0 or rng.random() < 0.25:
            return [str(rng.choice(leaves))]
        o = str(rng.choice(ops))
        return [o] + [t for _ in range(D.arity(o)) for t in tree(depth - 1)]
    progs = []
    for _ in range(6):
        t = tree(3)
        with R.quiet():
            p = from_str_tokens(",".join(t))
            mse = judge(m, X, y, p, pars, str(t))
        m.check(tokens_of(p) == t, "tokens-kept", str(t))
        if mse is not None:
            ev = p.evaluate
            m.close(ev["mse"], mse, "evaluate-mse", rtol=1e-7, atol=1e-18)
            m.check(bool(ev["success"]) == (ev["mse"] < 1e-10), "evaluate-success", str(ev))
            progs.append((p, p.get_constants(), t, float(p.r_ridge)))
        m.distinct((tuple(t), X.shape))
    for p, cs, t, r in progs:       # constants belong to their program alone
        m.check(p.get_constants() == cs and float(p.r_ridge) == r, "programs-keep-their-constants", str(t))
        if "const" not in t:
            continue
        with R.quiet():
            y1 = p.execute_direct(X)[0].reshape(-1)
        m.check(np.allclose(y1, value(t, X, plain(X, cs)), rtol=1e-9, atol=1e-12, equal_nan=True), "stored-constants-are-evaluated", str(t))


@workload(quick=40, thorough=400)
def rendering(m, rng, i):
    """variable names and constants in the reported text"""
    from kd.model.kd_discover_regression import KD_Discover_Regression as K
    d = int(rng.integers(1, 14))
    pool = [f"x{k}" for k in range(1, 30)] + ["max1", "ax11", "sin", "u x1", "t", "rate_x2", "1x1", "mul", "add2", "x"]
    names = [str(v) for v in rng.choice(pool, d, replace=False)]
    for _ in range(5):
        toks = [str(rng.choice(["add", "mul", "exp", "n2", "1.5", "-0.25", "div"])) if rng.random() < 0.5 else f"x{int(rng.integers(1, d + 1))}"
                for _ in range(int(rng.integers(1, 12)))]
        got = K._render_named_expression(",".join(toks), names)
        want = ",".join(names[int(t[1:]) - 1] if t[0] == "x" else t for t in toks)
        m.saw("named")
        m.check(got == want, "named-expression", f"{toks} with {names}: {got} instead of {want}")
        c = float(rng.choice([1, -1])) * 10 ** float(rng.uniform(-12, 9)) * float(rng.uniform(1, 9.99))
        s = K._format_constant(c)
        m.check(_num(s) and abs(float(s) - c) <= 1e-5 * abs(c), "shown-constants", f"{c} shown as {s}")
        m.check("," not in s and float(K._format_constant(np.array([c]))) == float(s), "constant-text", s)
    for c in (0.0, 1.0, -3.0, 2.5):
        m.check(float(K._format_constant(c)) == c, "shown-constants", f"{c}")
    m.distinct(("names", tuple(names)))


@workload(quick=30, thorough=200)
def refusals(m, rng, i):
    from kd.model.kd_discover_regression import KD_Discover_Regression as K
    mod = K(n_iterations=1, n_samples_per_batch=10, out_path=None)
    n, d = int(rng.integers(3, 20)), int(rng.integers(1, 5))
    X, y = rng.normal(size=(n, d)), rng.normal(size=n)
    bad = [(X[:, 0], y, None), (X, y[:-1], None), (X, y, ["a"] * (d + 1)), (X[None], y, None), (X, y, [])]
    for a, b, c in bad:
        m.raises(ValueError, lambda: mod.fit(a, b, var_names=c), "inconsistent-input-refused", f"{np.shape(a)} {np.shape(b)} {c}")
        m.saw("refused")
    m.raises(RuntimeError, lambda: mod.predict(X), "predict-before-fit-refused")
    with R.quiet():
        fine, _, _ = run(rng, X, y, ["add", "mul"], None, 1)
    for Z in (X[:, 0], np.hstack([X, X[:, :1]]), X[:, :-1]):
        m.raises(ValueError, lambda: fine.predict(Z), "predict-shape-refused", str(np.shape(Z)))
        m.saw("refused")
    m.distinct(("refusals", n, d))
