"""D06: a Discover fit is determined by its data, configuration and seed, and by nothing that happened before it."""
import copy, hashlib, json, os, subprocess, sys, tempfile
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "D06"
RULE = "distinct (data set, configuration, seed, preceding activity) fits compared batch by batch with a reference fit"
REQUIRE = {"fit": 150, "batch": 300, "program": 4000, "interference": 40, "override": 30, "path": 30, "process": 4}
ASSUME = ["fits are compared on this machine with torch restricted to the thread count the check runs with",
          "rewards are compared to 1e-9, sampled programs exactly"]


def gen_cfg(rng):
    c = {"controller": {"num_units": int(rng.choice([6, 12, 24])), "learning_rate": 0.05},
         "training": {"epsilon": float(rng.choice([0.2, 0.5]))},
         "prior": {"length": {"min_": 3, "max_": int(rng.integers(8, 20)), "on": True}}}
    if rng.random() < 0.3:
        c["prior"]["relational"] = {"targets": "diff", "effectors": "diff2", "relationship": "child", "on": True}
    if rng.random() < 0.3:
        c["state_manager"] = {"observe_action": True, "observe_dangling": True}
    return c


def spec(rng, dim=None):
    """everything that defines a fit, drawn once"""
    dim = dim or int(rng.choice([1, 1, 2, 3]))
    ops = [([], []), (["add", "mul", "diff"], ["n2"]), (["add", "sub", "mul", "diff", "diff2"], ["cos"])][rng.integers(3)] if dim == 1 else ([], [])
    return dict(data_seed=int(rng.integers(1 << 30)), dim=dim, params=bool(rng.random() < 0.3), ops=ops, cfg=gen_cfg(rng),
                batch=int(rng.integers(15, 40)), seed=int(rng.integers(1 << 20)), epochs=int(rng.integers(1, 4)))


def dataset(s):
    return D.gen_problem(np.random.default_rng(s["data_seed"]), s["dim"], params=s["params"])[0]


def make(s, cfg=None, out_path=None):
    from kd.model.kd_discover import KD_Discover
    return KD_Discover(n_iterations=2, n_samples_per_batch=s["batch"], binary_operators=list(s["ops"][0]), unary_operators=list(s["ops"][1]),
                       out_path=out_path, seed=s["seed"], config_out=copy.deepcopy(s["cfg"]) if cfg is None else cfg)


def record(m, mod, go):
    """run go() and list every sampled batch and its rewards, then the outcome"""
    trace = []
    real = mod.searcher.controller.sample_episodes
    from kd.model.discover.program import from_tokens

    def sample(n):
        out = real(n)
        a = out[0].numpy().copy()
        trace.append((a, np.array([from_tokens(r).r_ridge for r in a], dtype=float)))
        return out
    mod.searcher.controller.sample_episodes = sample
    mod.controller.sample_episodes = sample
    with R.quiet():
        out = go()
    mod.controller.sample_episodes = real
    m.saw("fit")
    m.saw("batch", len(trace))
    m.saw("program", sum(len(a) for a, _ in trace))
    weights = [p.detach().numpy().copy() for p in mod.controller.cell.parameters()]
    return dict(trace=trace, r=float(out["r"]), expr=str(out["expression"]), trav=str(out["traversal"]), weights=weights)


def fit(m, mod, ds, epochs):
    with R.quiet():
        mod.import_dataset(ds)
    return record(m, mod, lambda: mod.train(n_epochs=epochs, verbose=False))


def same(m, a, b, mech, msg):
    ok = len(a["trace"]) == len(b["trace"])
    for k, ((x, rx), (y, ry)) in enumerate(zip(a["trace"], b["trace"])):
        if not m.check(np.array_equal(x, y), mech, f"{msg}: batch {k} differs"):
            return False
        if not m.check(np.allclose(rx, ry, rtol=1e-9, atol=1e-12, equal_nan=True), mech, f"{msg}: rewards of batch {k} differ"):
            return False
    ok &= a["trav"] == b["trav"] and a["expr"] == b["expr"] and np.allclose(a["r"], b["r"], rtol=1e-9, equal_nan=True)
    ok &= len(a["weights"]) == len(b["weights"]) and all(np.allclose(p, q, rtol=1e-6, atol=1e-8) for p, q in zip(a["weights"], b["weights"]))
    return m.check(ok, mech, f"{msg}: {a['expr']} r {a['r']} and {b['expr']} r {b['r']}")


def disturb(m, rng):
    """something else a process may do between two fits"""
    import torch, random
    kind = int(rng.integers(7))
    np.random.seed(int(rng.integers(1 << 30)))
    random.seed(int(rng.integers(1 << 30)))
    torch.manual_seed(int(rng.integers(1 << 30)))
    m.saw("interference")
    with R.quiet():
        if kind <= 2:
            o = spec(rng, kind + 1)
            mod = make(o)
            mod.import_dataset(dataset(o))
            if rng.random() < 0.7:
                mod.train(n_epochs=1, verbose=False)
        elif kind in (3, 4):
            from kd.model.kd_discover import KD_Discover_SPR
            o = dict(spec(rng, 1 if kind == 3 else 2), params=False)
            tmp = tempfile.mkdtemp(prefix="d06_")
            try:
                mod = KD_Discover_SPR(n_iterations=1, n_samples_per_batch=10, out_path=tmp + os.sep, seed=1,
                                      config_out={"pinn": {"pinn_epoch": 2, "duration": 1, "number_layer": 2, "n_hidden": 6}})
                mod.import_dataset(dataset(o), sample_ratio=0.3, colloc_num=20)
                from kd.model.discover.program import Program
                if rng.random() < 0.7:
                    Program.reset_task(mod.denoise_pinn, mod.config_pinn["generation_type"])
                    if rng.random() < 0.7:
                        mod.train_one_step(epoch=1, verbose=False)
            finally:
                import shutil
                shutil.rmtree(tmp, ignore_errors=True)
        elif kind == 5:
            from kd.model.kd_discover_regression import KD_Discover_Regression
            mod = KD_Discover_Regression(n_iterations=1, n_samples_per_batch=12, binary_operators=["add", "mul"],
                                         unary_operators=["sin"], out_path=None, seed=2)
            X = rng.normal(size=(20, 2))
            mod.fit(X, X[:, 0] * X[:, 1])
        else:
            from kd.model.kd_sga import KD_SGA
            g = np.linspace(0, 1, 20)
            from kd.dataset import PDEDataset
            ds = PDEDataset(equation_name="w", x=g, t=g, usol=np.sin(g[:, None] + 2 * g[None, :]) + 2)
            KD_SGA(num=4, depth=2, width=2, sga_run=1, seed=3).fit_dataset(ds)
    return kind


@workload(quick=28, thorough=300, timeout=120)
def repeat(m, rng, i):
    """the same fit again, after other things have happened"""
    s = spec(rng)
    kinds = [disturb(m, rng)] if rng.random() < 0.5 else []
    ref = fit(m, make(s), dataset(s), s["epochs"])
    kinds += [disturb(m, rng) for _ in range(int(rng.integers(1, 3)))]
    b = fit(m, make(s), dataset(s), s["epochs"])
    same(m, ref, b, "repeatable", f"{s} after {kinds}")
    o = dict(s, seed=s["seed"] + 1)
    c = fit(m, make(o), dataset(o), 1)
    m.check(not np.array_equal(ref["trace"][0][0], c["trace"][0][0]), "seed-matters", str(s))
    m.distinct(("repeat", s["data_seed"], tuple(kinds)))


@workload(quick=20, thorough=250, timeout=120)
def sequence(m, rng, i):
    """one instance taken through several data sets does on each what a fresh instance does"""
    s = spec(rng, None if i % 2 else int(rng.integers(1, 4)))
    if s["ops"][0] == []:
        todo = [dict(s, **{k: spec(rng)[k] for k in ("data_seed", "dim", "params")}) for _ in range(3)]
    else:
        todo = [dict(s, data_seed=int(rng.integers(1 << 30)), params=bool(rng.random() < 0.4)) for _ in range(3)]
    for o in todo:
        if "relational" in o["cfg"]["prior"] and o["dim"] > 1:
            o["cfg"]["prior"].pop("relational")
    user = copy.deepcopy(s["cfg"])
    keep = copy.deepcopy(user)
    one = make(s, user)
    for k, o in enumerate(todo):
        got = fit(m, one, dataset(o), s["epochs"])
        if rng.random() < 0.3:
            with R.quiet():
                one.train(n_epochs=1, verbose=False)
        want = fit(m, make(o), dataset(o), s["epochs"])
        same(m, want, got, "refit-is-fresh", f"{o} fit number {k + 1} on one instance, dims {[q['dim'] for q in todo]}")
        m.check(type(one.prior).__name__ == "JointPrior" and
                len(one.prior.priors) == len(one.make_prior().priors), "priors-kept", "")
    m.check(user == keep, "config-not-mutated", f"{keep} became {user}")
    m.distinct(("sequence", tuple(o["data_seed"] for o in todo)))


@workload(quick=16, thorough=160, timeout=120)
def stepwise(m, rng, i):
    """stepping by hand is the same search"""
    s = spec(rng)
    s["epochs"] = 3
    a = fit(m, make(s), dataset(s), 3)
    mod = make(s)
    with R.quiet():
        mod.import_dataset(dataset(s))

    def go():
        for e in range(3):
            mod.train_one_step(epoch=e + 1, verbose=False)
        p = mod.searcher.best_p
        return {"r": p.r_ridge, "expression": p.str_expression, "traversal": repr(p)}
    b = record(m, mod, go)
    same(m, a, b, "stepping-is-searching", str(s))
    # and the convenience entry point is import followed by train
    mod = make(s)
    real = mod.import_dataset
    box = {}

    def imp(ds, **kw):
        out = real(ds, **kw)
        box["go"] = True
        return out
    mod.import_dataset = imp
    with R.quiet():
        r = mod.fit_dataset(dataset(s), n_epochs=3, verbose=False)
    m.saw("fit")
    m.check(str(r["traversal"]) == a["trav"] and np.allclose(r["r"], a["r"], rtol=1e-9), "fit-dataset-is-import-and-train",
            lambda: f"{s}: {r['expression']} {r['r']} and {a['expr']} {a['r']}")
    m.distinct(("stepwise", s["data_seed"]))


@workload(quick=30, thorough=300, timeout=60)
def overrides(m, rng, i):
    """each configured value reaches the part it configures, and only this instance"""
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import Program
    ds = dataset(dict(data_seed=int(rng.integers(1 << 30)), dim=1, params=False))
    v = dict(units=int(rng.integers(5, 40)), eps=float(rng.choice([0.1, 0.25, 0.4])), lr=float(rng.choice([0.001, 0.01])),
             k=int(rng.integers(1, 8)), mx=int(rng.integers(7, 30)), alpha=float(rng.choice([0.0, 0.03, 0.05])), pw=float(rng.choice([0.0, 2.0])))
    cfg = {"controller": {"num_units": v["units"], "learning_rate": v["lr"], "pqt_k": v["k"], "pqt_weight": v["pw"]},
           "training": {"epsilon": v["eps"]}, "prior": {"length": {"max_": v["mx"]}, "trig": {"on": False}},
           "task": {"metric_params": [v["alpha"]]}}
    keep = copy.deepcopy(cfg)
    ops = [["add", "mul", "diff"], ["n2", "sin"]]
    ok = copy.deepcopy(ops)
    batch, its = int(rng.integers(10, 50)), int(rng.integers(1, 4))
    mod = KD_Discover(n_iterations=its, n_samples_per_batch=batch, binary_operators=ops[0], unary_operators=ops[1], out_path=None,
                      seed=1, config_out=cfg)
    other = KD_Discover(n_iterations=1, n_samples_per_batch=10, out_path=None, seed=1)
    with R.quiet():
        mod.import_dataset(ds)
        mod.train(n_epochs=1, verbose=False)
    m.saw("override")
    hidden = {tuple(p.shape) for p in mod.controller.cell.parameters()}
    m.check(any(v["units"] in sh or 4 * v["units"] in sh for sh in hidden), "hidden-units", f"{v['units']}: {hidden}")
    m.check(mod.searcher.args["epsilon"] == v["eps"], "epsilon", "")
    m.check(mod.searcher.pq.capacity == v["k"], "queue-capacity", f"{mod.searcher.pq.capacity} {v['k']}")
    m.check(mod.controller.optimizer.param_groups[0]["lr"] == v["lr"], "learning-rate", "")
    m.check(mod.searcher.batch_size == batch, "batch-size", "")
    acts = mod.controller.sample_episodes(batch)[0].numpy()
    names = list(Program.library.names)
    L = []
    for row in acts:
        p = D.Prefix()
        for t in row:
            p.push(names[int(t)])
            if p.complete:
                break
        L.append(len(p.names))
    m.check(min(L) >= 3 and max(L) <= v["mx"], "length-bounds", f"{min(L)}..{max(L)} with 3..{v['mx']}")
    m.check({n for n in names if D.arity(n)} == set(ok[0] + ok[1]), "operators", str(names))
    p = mod.searcher.best_p
    m.check(cfg == keep and ops == ok, "user-objects-untouched", f"{keep} -> {cfg}; {ok} -> {ops}")
    base = KD_Discover(n_iterations=1, n_samples_per_batch=10, out_path=None, seed=1)
    m.check(json.dumps(other.config, sort_keys=True, default=str) == json.dumps(base.config, sort_keys=True, default=str)
            and base.operator == [], "other-instances-untouched", "")
    m.check(KD_Discover.__init__.__defaults__[2:4] == ([], []), "defaults-untouched", str(KD_Discover.__init__.__defaults__))
    # everything not mentioned keeps its shipped value
    flat = lambda d, pre=(): [x for k, q in d.items() for x in (flat(q, pre + (k,)) if isinstance(q, dict) and q else [(pre + (k,), q)])]
    mine, ship = dict(flat(KD_Discover(out_path=None, config_out=cfg).config)), dict(flat(base.config))
    said = dict(flat(cfg))
    m.check(all(mine[k] == q for k, q in said.items()) and all(mine.get(k) == q for k, q in ship.items() if k not in said),
            "unmentioned-settings-keep-defaults", str({k: (mine.get(k), q) for k, q in ship.items() if k not in said and mine.get(k) != q}))
    m.distinct(("override", tuple(v.values())))


@workload(quick=30, thorough=300, timeout=60)
def paths(m, rng, i):
    """the output file is <out_path>/discover_<data set>_<seed>.csv for every data set imported"""
    seed = int(rng.integers(1 << 20))
    base = [None, "./log/", "/nowhere/out", "a/b"][rng.integers(4)]
    s = spec(rng, 1)
    mod = make(dict(s, seed=seed), out_path=base)
    keep = np.random.get_state()[1].copy()
    for k in range(3):
        name = str(rng.choice(["KdV", "wave eq", "data"])) + str(k)
        if rng.random() < 0.2:
            base = mod.out_path = str(rng.choice(["c", "/d/e"]))
        with R.quiet():
            mod.import_dataset(dataset(s), dataset_name=name)
        want = None if base is None else os.path.join(base, f"discover_{name}_{seed}.csv")
        m.check(mod.out_path == want, "output-file", f"import {k + 1}: {mod.out_path} instead of {want}")
        m.check(mod.dataset == name, "data-set-name", f"{mod.dataset}")
        m.saw("path")
    m.check(base is None or not os.path.exists("/nowhere"), "nothing-written-on-import", "")
    m.distinct(("path", base, seed))


CHILD = r"""
import sys, json
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
try:
    import triton._C.libtriton
except Exception:
    pass
import numpy as np, torch
torch.set_num_threads(int(sys.argv[4]))
from checks import d06_repeat as C
class M:
    def saw(self, *a): pass
s = json.loads(sys.argv[3])
f = C.fit(M(), C.make(s), C.dataset(s), s["epochs"])
print("RESULT" + json.dumps(dict(trace=[(a.tolist(), r.tolist()) for a, r in f["trace"]], r=f["r"], expr=f["expr"], trav=f["trav"],
      weights=[w.tolist() for w in f["weights"]])))
"""


@workload(quick=6, thorough=40, timeout=200)
def process(m, rng, i):
    """a fit in a busy process equals the same fit in a fresh one"""
    import torch
    from vkit import REPO, ROOT
    s = spec(rng, i % 3 + 1)
    kinds = [disturb(m, rng) for _ in range(2)]
    got = fit(m, make(s), dataset(s), s["epochs"])
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1000))), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", CHILD, REPO, ROOT, json.dumps(s), str(torch.get_num_threads())], capture_output=True, text=True, env=env, timeout=180)
    line = [q for q in p.stdout.splitlines() if q.startswith("RESULT")]
    if not m.check(line, "fresh-process-runs", p.stderr[-600:]):
        return
    w = json.loads(line[0][6:])
    w["trace"] = [(np.array(a), np.array(r, dtype=float)) for a, r in w["trace"]]
    w["weights"] = [np.array(a) for a in w["weights"]]
    m.saw("process")
    same(m, w, got, "process-independent", f"{s} after {kinds}")
    m.distinct(("process", s["data_seed"]))
