"""R01: a runner job always leaves exactly one truthful result record, whatever fails on the way."""
import contextlib, io, json, os, sys
import numpy as np
from vkit import workload
from vkit import sga_ref as R

PROPERTY = "R01"
RULE = "distinct (fault point, exception, configuration) jobs whose record and exit status were read back"
REQUIRE = {"configured": 100, "job": 60, "fault": 30, "success": 15, "real-model": 3}
ASSUME = ["faults are injected at the loader, the model, and the figure stage; process kill and a full disk are not simulated"]


class Odd(Exception):
    def __str__(self):
        return "odd \u2202 \"quoted\" \n second line {}"


def job(config, outdir=None, argv_out=None):
    from kd import runner
    p = os.path.abspath(f"cfg_{os.getpid()}.json")
    with open(p, "w") as f:
        f.write(config if isinstance(config, str) else json.dumps(config))
    argv = ["runner", "--config", p]
    if argv_out:
        argv += ["--output_dir", argv_out]
    old = sys.argv
    sys.argv = argv
    buf = io.StringIO()
    code = 0
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            runner.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv = old
    return code, buf.getvalue()


def record(m, out, tag):
    files = sorted(os.listdir(out)) if os.path.isdir(out) else []
    if not m.check("result.json" in files, "record-written", f"{tag}: {files}"):
        return None
    try:
        with open(os.path.join(out, "result.json"), encoding="utf-8") as f:
            return json.load(f)
    except ValueError as e:
        m.check(False, "record-readable", f"{tag}: {e}")
        return None


@workload(quick=160, thorough=2500)
def faults(m, rng, i):
    """Stub models: every stage fails in turn; the record says so."""
    from kd import runner
    x, t = R.axis_values(rng, 7), R.axis_values(rng, 6)
    u = rng.normal(size=(7, 6))
    np.save("d.npy", u)
    stage = ["ok", "ok", "load-missing", "load-bad", "model", "viz", "unserialisable", "no-source", "stale"][int(rng.integers(9))]
    exc = [ValueError("bad"), RuntimeError(""), Odd(), KeyError("k"), ZeroDivisionError(), MemoryError(), np.linalg.LinAlgError("svd"),
           AssertionError(), StopIteration(), UnicodeDecodeError("utf-8", b"x", 0, 1, "r")][int(rng.integers(10))]
    eq = [r"u_t = 0.1 u_{xx}", "u_t = \u2202u", "", "a\nb\"c\\"][int(rng.integers(4))]
    name = str(rng.choice(["dlga", "dscv_spr"]))
    params = {"seed": int(rng.integers(9)), "note": "\u03b1", "nested": {"a": [1, 2.5, None]}}
    seen = {}

    class Model:
        def __getattr__(self, k):
            if stage == "viz":
                raise exc
            raise AttributeError(k)

    def stub(dataset, p):
        seen["dataset"], seen["params"] = dataset, p
        if stage == "model":
            raise exc
        if stage == "unserialisable":
            return {1, 2}, Model()
        return eq, Model()
    out = os.path.abspath(f"out_{i}") if rng.random() < 0.5 else os.path.join(os.path.abspath("deep"), f"a{i}", "b")
    cfg = {"model": name, "params": params, "output_dir": out,
           "dataset_file": os.path.abspath("d.npy"), "file_config": {"shape": [7, 6]}}
    if stage == "load-missing":
        cfg["dataset_file"] = os.path.abspath("gone.npy")
    if stage == "load-bad":
        cfg["file_config"] = {"shape": [5, 5]}
    if stage == "no-source":
        cfg.pop("dataset_file")
    argv_out = None
    if rng.random() < 0.3:
        argv_out, cfg["output_dir"] = out, os.path.abspath("ignored")
    if stage == "stale":
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "result.json"), "w") as f:
            f.write("{\"status\": \"old\", \"pad\": \"" + "x" * 5000 + "\"}")
    old = dict(runner.RUNNERS)
    runner.RUNNERS[name] = stub
    try:
        code, log = job(cfg, argv_out=argv_out)
    finally:
        runner.RUNNERS.clear()
        runner.RUNNERS.update(old)
    m.saw("job")
    tag = f"{stage} {type(exc).__name__}"
    r = record(m, out, tag)
    m.check(not os.path.exists(os.path.abspath("ignored")), "output-dir-override", tag)
    if r is None:
        return
    ok = stage in ("ok", "viz", "stale")
    m.saw("success" if ok else "fault")
    m.check(r.get("status") == ("success" if ok else "error"), "status-truthful", f"{tag}: {r.get('status')}")
    m.check((code == 0) == ok, "exit-status-truthful", f"{tag}: exit {code}")
    m.check(r.get("model") == name and r.get("params") == params, "record-names-job", f"{tag}: {r.get('model')} {r.get('params')}")
    m.check(r.get("dataset") == cfg.get("dataset_file", "unknown"), "record-names-dataset", f"{tag}: {r.get('dataset')}")
    m.check(isinstance(r.get("elapsed_seconds"), (int, float)) and 0 <= r["elapsed_seconds"] < 120, "elapsed", str(r.get("elapsed_seconds")))
    if ok:
        m.check(r.get("equation") == eq and "error" not in r, "equation-recorded", f"{tag}: {r.get('equation')!r} vs {eq!r}")
        m.check(seen.get("params") == params and seen["dataset"].usol.shape == (7, 6), "model-gets-inputs", tag)
    else:
        m.check(bool(r.get("error")), "error-recorded", f"{tag}: {r.get('error')!r}")
        if stage == "model":
            m.check(type(exc).__name__ in r["error"], "error-names-cause", f"{tag}: {r['error'][-300:]}")
        m.check(r.get("equation") != eq or eq == "", "no-equation-claimed", f"{tag}: {r.get('equation')}")
    m.distinct((stage, type(exc).__name__, name, eq, bool(argv_out)))


@workload(quick=160, thorough=2000)
def configured(m, rng, i):
    """recording models: the real runners hand over the uploaded data and every parameter of the job"""
    import scipy.io as sio
    import kd.model.kd_dlga as KD
    import kd.model.kd_discover as KS
    name = ["dlga", "dscv_spr"][i % 2]
    nx, nt = int(rng.integers(5, 12)), int(rng.integers(5, 12))
    x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
    u = rng.normal(size=(nx, nt))
    turned = nx != nt and rng.random() < 0.4
    out, kind = os.path.abspath(f"conf{i}"), ["mat", "npy", "named"][i // 2 % 3]
    cfg = {"model": name, "output_dir": out}
    if kind == "mat":
        keys = {"x_key": "x", "t_key": "t", "u_key": "usol"} if rng.random() < 0.4 else {"x_key": "pos", "t_key": "time", "u_key": "values"}
        cfg["dataset_file"] = os.path.abspath(f"c{i}.mat")
        sio.savemat(cfg["dataset_file"], {keys["x_key"]: x[:, None] if rng.random() < 0.5 else x, keys["t_key"]: t, keys["u_key"]: u.T if turned else u, "junk": np.ones(3)})
        cfg["file_config"] = {} if keys["x_key"] == "x" and rng.random() < 0.5 else keys
    elif kind == "npy":
        cfg["dataset_file"] = os.path.abspath(f"c{i}.npy")
        np.save(cfg["dataset_file"], u.T if turned else u)
        cfg["file_config"] = {"shape": [nx, nt]}
        dom = int(rng.integers(3))
        if dom:
            ends = lambda c: [float(c.max()), float(c.min())] if rng.random() < 0.25 else [float(c.min()), float(c.max())]     # rows may run downwards
            cfg["file_config"]["domain"] = {"x": ends(x), **({"t": ends(t)} if dom == 2 else {})}
        x = np.linspace(*cfg["file_config"].get("domain", {}).get("x", (0, 1)), nx)
        t = np.linspace(*cfg["file_config"].get("domain", {}).get("t", (0, 1)), nt)
    else:
        from kd.dataset import load_pde
        cfg["dataset_name"] = ["burgers", "kdv"][int(rng.integers(2))]
        with R.quiet():
            d = load_pde(cfg["dataset_name"])
        x, t, u = np.ravel(d.x), np.ravel(d.t), np.asarray(d.usol)
    ops = lambda pool: [str(o) for o in rng.permutation(pool)[:int(rng.integers(1, len(pool) + 1))]]
    put = lambda L: L if rng.random() < 0.5 else [",", ", ", " , "][int(rng.integers(3))].join(L)
    pick = lambda d: {k: v for k, v in d.items() if rng.random() < 0.6}
    if name == "dlga":
        o = ops(["u", "u_x", "u_xx", "u_xxx", "u_y"])
        want = pick({"operators": o, "epi": float(rng.uniform(0.01, 2)), "input_dim": int(rng.integers(2, 5)), "max_iter": int(rng.integers(1, 9999)), "sample": int(rng.integers(1, [99, 60000][int(rng.integers(2))]))})
        made = {"operators": ["u", "u_x", "u_xx", "u_xxx"], "epi": 0.1, "input_dim": 2, "max_iter": 3000}
        lists = ("operators",)
        fitted = {"sample": want.get("sample")}
    else:
        want = pick({"binary_operators": ops(["add_t", "mul_t", "div_t", "diff_t"]), "unary_operators": ops(["n2_t", "n3_t"]), "n_samples_per_batch": int(rng.integers(10, 900)),
                     "seed": int(rng.integers(999)), "n_epochs": int(rng.integers(1, 99)), "sample_ratio": float(rng.uniform(0.01, 1))})
        made = {"binary_operators": ["add_t", "mul_t", "div_t", "diff_t", "diff2_t"], "unary_operators": ["n2_t"], "n_samples_per_batch": 200, "seed": 0}
        lists = ("binary_operators", "unary_operators")
        fitted = {"n_epochs": want.get("n_epochs", 5), "sample_ratio": want.get("sample_ratio", 0.1)}
    built = {**made, **{k: v for k, v in want.items() if k in made}}
    cfg["params"] = {k: put(v) if k in lists else str(v) if rng.random() < 0.3 else v for k, v in want.items()}
    eq = f"u_t = {int(rng.integers(99))} u_x"
    log = []

    class Fake:
        def __init__(self, *a, **k):
            log.append(("made", a, k))

        def fit_dataset(self, ds, **k):
            log.append(("fit", ds, k))
            self.eq_latex = eq
            return {"expression": eq, "r": 1.0}
    mod, cls = (KD, "KD_DLGA") if name == "dlga" else (KS, "KD_Discover_SPR")
    import kd.model
    from kd import runner
    real = getattr(mod, cls)
    places = [q for q in (mod, kd.model, runner) if getattr(q, cls, None) is real]
    for q in places:
        setattr(q, cls, Fake)
    try:
        code, text = job(cfg)
    finally:
        for q in places:
            setattr(q, cls, real)
    m.saw("job")
    label = f"{name} {kind} {cfg}"
    r = record(m, out, label)
    if r is None:
        return
    if not m.check(code == 0 and r.get("status") == "success" and r.get("equation") == eq, "configured-job-succeeds", f"{label}: {str(r)[:500]}"):
        return
    if not m.check([l[0] for l in log] == ["made", "fit"], "one-model-one-fit", f"{label}: {log}"):
        return
    got = log[0][2]
    m.check(not log[0][1] and all(got.get(k) == v for k, v in built.items()), "model-gets-parameters", lambda: f"{label}: {got} instead of {built}")
    m.check(all(log[1][2].get(k) == v for k, v in fitted.items()), "model-gets-parameters", lambda: f"{label}: fit {log[1][2]} instead of {fitted}")
    d = log[1][1]
    same = lambda a, b: np.shape(np.ravel(a)) == np.shape(np.ravel(b)) and np.allclose(np.ravel(a), np.ravel(b), rtol=1e-12, atol=1e-12)
    m.check(np.shape(d.usol) == u.shape and np.array_equal(d.usol, u) and same(d.x, x) and same(d.t, t), "model-gets-data", f"{label}: {np.shape(d.usol)} for {u.shape}")
    m.check(r.get("params") == cfg["params"] and r.get("dataset") == (cfg.get("dataset_name") or cfg.get("dataset_file")), "record-names-job", f"{label}: {r}")
    m.saw("configured")
    m.distinct(("configured", name, kind, str(want)))


@workload(quick=40, thorough=400)
def bad_jobs(m, rng, i):
    """Jobs that name no known model never claim success."""
    out = os.path.abspath(f"bj{i}")
    cfg = [{"output_dir": out}, {"model": "", "output_dir": out}, {"model": "sga", "output_dir": out},
           {"model": "DLGA", "output_dir": out, "dataset_name": "burgers"}][i % 4]
    code, log = job(cfg)
    m.saw("job")
    m.saw("fault")
    m.check(code not in (0, None), "exit-status-truthful", f"{cfg}: exit {code}")
    p = os.path.join(out, "result.json")
    if os.path.exists(p):
        with open(p) as f:
            m.check(json.load(f).get("status") != "success", "status-truthful", str(cfg))
    m.distinct(("bad", i % 4))


@workload(quick=4, thorough=24, timeout=280)
def real(m, rng, i):
    """The DLGA runner end to end on a tiny upload."""
    nx, nt = int(rng.integers(10, 14)), int(rng.integers(8, 12))
    x, t = np.linspace(-1, 1, nx), np.linspace(0, 1, nt)
    X, T = np.meshgrid(x, t, indexing="ij")
    u = np.exp(-T) * np.sin(3 * X)
    np.save("r.npy", u)
    out = os.path.abspath(f"real{i}")
    cfg = {"model": "dlga", "output_dir": out, "dataset_file": os.path.abspath("r.npy"),
           "file_config": {"shape": [nx, nt], "domain": {"x": [-1, 1], "t": [0, 1]}},
           "params": {"operators": ["u", "u_x", "u_xx"] if i % 2 else "u, u_x,u_xx", "max_iter": 2, "epi": 0.1, "sample": 40}}
    code, log = job(cfg)
    m.saw("job")
    r = record(m, out, "real")
    if r is None:
        return
    m.saw("real-model")
    if code == 0:
        m.check(r["status"] == "success" and isinstance(r["equation"], str) and r["equation"], "equation-recorded", str(r)[:300])
    else:
        m.check(r["status"] == "error" and r.get("error"), "status-truthful", str(r)[:300])
        m.check(False, "tiny-job-succeeds", r.get("error", "")[-600:])
    m.distinct(("real", nx, nt))
