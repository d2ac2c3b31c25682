"""D01: the reward, coefficients and text Discover reports for an equation are those of that equation."""
import re
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "D01"
RULE = "distinct (dimension, program text) pairs whose reward, coefficients and text were recomputed from the data"
REQUIRE = {"program": 300, "valid": 150, "refused": 30, "dim:1": 50, "dim:2": 20, "dim:3": 20, "searched": 100,
           "constant-dropped": 10}
ASSUME = ["collinear terms (condition number above 1e6) are judged by their fit, not by their coefficients",
          "programs within a relative 1e-9 of a pole, or underflowing, may be refused or not"]

OPS1 = ["add", "sub", "mul", "div", "diff", "diff2", "diff3", "diff4", "n2", "n3", "n4", "n5", "sin", "cos", "exp", "log",
        "sqrt", "neg", "abs", "tanh", "inv", "logabs", "expneg", "sigmoid", "tan"]


def model(rng, ops=None, **task):
    from kd.model.kd_discover import KD_Discover
    cfg = {"task": task} if task else None
    ops = ops or []
    b = [o for o in ops if D.arity(o) == 2]
    return KD_Discover(n_iterations=1, n_samples_per_batch=20, binary_operators=b, unary_operators=[o for o in ops if o not in b],
                       out_path=None, seed=int(rng.integers(1 << 20)), config_out=cfg)




def judge(m, p, env, max_depth=4, add_const=False, alpha=0.01, spatial=True, metric="pde_reward", noise=0):
    """recompute one program"""
    tree = D.parse([t.name for t in p.traversal])
    label = D.text(tree)
    r = p.r_ridge
    m.saw("program")
    names = D.preorder(tree)
    terms = D.split_terms(tree)
    bad = D.unsafe_terms(tree, env.dim, max_depth)
    if "uneven use of the axes" in bad and not spatial:
        bad.remove("uneven use of the axes")
    soft = [b for b in bad if b == "term without u"]
    if soft and len(soft) == len(bad):
        # documented loosely: a term without the field may or may not be refused
        if any("u" in n for t in terms for n in D.preorder(t) if "u1" not in D.preorder(t)):
            return
    m.check(np.isfinite(r), "reward-finite", f"{label}: {r}")
    m.check(0 <= r <= 1 + 1e-12, "reward-in-range", f"{label}: {r}")
    if bad:
        m.saw("refused")
        m.check(p.invalid and r == 0, "forbidden-equation-earns-nothing", f"{label} ({bad[0]}): invalid={p.invalid} r={r}")
        return
    env.near = False
    try:
        cols, hit = env.terms(tree)
    except ValueError:
        m.check(p.invalid and r == 0, "malformed-derivative-earns-nothing", f"{label}: {r}")
        return
    unsure = env.near or any("underflow" in h for h in hit)
    y = env.ut.ravel()
    if hit and not unsure:
        m.saw("float-error")
        m.check(p.invalid and r == 0, "undefined-equation-earns-nothing", f"{label} {hit[:2]}: invalid={p.invalid} r={r}")
        return
    A = [c for c in cols]
    if any(c.shape != y.shape for c in A) or not all(np.all(np.isfinite(c)) for c in A):
        return
    if add_const:
        A = A + [np.ones_like(y)]
    w, M, cond = D.lstsq(A, y)
    if add_const and abs(w[-1]) < 5e-5 and cond < 1e6:
        if abs(abs(w[-1]) - 5e-5) < 1e-9:
            return
        A = A[:-1]
        w, M, cond = D.lstsq(A, y)
        m.saw("constant-dropped")
    edge = any(abs(abs(v) / lim - 1) < 1e-4 for v in w for lim in (5e-5, 1e4))
    out = any(abs(v) < 5e-5 or abs(v) > 1e4 for v in w)
    if p.invalid:
        m.check(r == 0, "invalid-means-zero", f"{label}: {r}")
        if cond < 1e6 and not edge and not unsure:
            m.check(out, "usable-equation-is-scored", f"{label}: refused ({p.error_type}) though its coefficients are {w}")
            m.saw("refused-coefficient")
        return
    m.saw("valid")
    m.saw(f"dim:{env.dim}")
    if cond < 1e6 and not edge:
        m.check(not out, "out-of-range-coefficient-earns-nothing", f"{label}: {w} accepted")
        if out:
            return
        m.close(np.ravel(p.w), w, "coefficients-are-least-squares", rtol=1e-5, atol=1e-7 * (1 + np.max(np.abs(w))), msg=label)
    got = np.ravel(p.w)
    if not m.check(len(got) in ((len(terms), len(terms) + 1) if add_const else (len(terms),)), "one-coefficient-per-term",
                   f"{label}: {len(got)} for {len(terms)} terms"):
        return
    cmat = np.stack((cols + [np.ones_like(y)])[:len(got)], 1)
    fit = cmat @ got
    res = y - fit
    scale = np.sqrt(np.mean(y ** 2)) + 1e-12
    best = D.lstsq(list(cmat.T), y)[0]
    best_mse = np.mean((y - cmat @ best) ** 2)
    m.check(np.mean(res ** 2) <= best_mse * (1 + 1e-6) + 1e-14 * scale ** 2 * max(1, cond * 1e-8), "coefficients-fit-best",
            lambda: f"{label}: mse {np.mean(res ** 2)} best possible {best_mse}")
    size = np.max(np.abs(cmat) @ np.abs(got)) if len(got) else 1
    tol = 1e-8 * (1 + size / scale)
    m.close(r, (1 - alpha * len(got)) / (1 + np.sqrt(np.mean(res ** 2) / np.var(y))), "reward-definition", rtol=1e-7 + 10 * tol, msg=label)
    m.close(np.ravel(p.y_hat_rhs), fit, "reported-right-hand-side", rtol=1e-6, atol=1e-8 * (size + scale), msg=label)
    m.close(np.asarray(p.Theta, dtype=float), cmat, "reported-term-values", rtol=1e-6, atol=1e-9 * (np.max(np.abs(cmat)) + 1), msg=label)
    ev = p.evaluate
    m.close(ev["nmse_test"], np.mean(res ** 2), "reported-error", rtol=1e-5, atol=1e-9 * (scale + size) ** 2, msg=label)
    m.check(bool(ev["success"]) == (float(ev["nmse_test"]) < p.task.threshold), "success-is-below-threshold", f"{label} {ev}")
    # the text
    txt = p.str_expression
    parts = txt.split(" + ")
    want = ["%s * %s" % (("%.4f" % c), D.text(t)) for c, t in zip(got, terms)] + [("%.4f" % c) for c in got[len(terms):]]
    m.check(parts == want, "text-names-every-term", f"{txt} instead of {' + '.join(want)}")
    m.check(re.sub(r"\s", "", repr(p)) == ",".join(names), "traversal-text", repr(p))
    m.distinct((env.dim, label))


def setup(rng, dim=None, ops=None, scale=None, **task):
    from kd.model.discover.program import Program
    ds, env, meta = D.gen_problem(rng, dim, scale=scale)
    mod = model(rng, ops, **task)
    with R.quiet():
        mod.import_dataset(ds)
    names = list(Program.library.names)
    m_ = mod
    return m_, env, names, meta


def random_programs(m, rng, names, env, n, depth=3, **kw):
    from kd.model.discover.program import from_str_tokens
    for _ in range(n):
        k = int(rng.integers(1, 4))
        tree = D.random_tree(rng, names, env.dim, int(rng.integers(0, depth + 1)))
        for _ in range(k - 1):
            op = "sub" if ("sub" in names and rng.random() < 0.4) else "add"
            other = D.random_tree(rng, names, env.dim, int(rng.integers(0, depth + 1)))
            tree = (op, tree, other) if rng.random() < 0.5 else (op, other, tree)
        if len(D.preorder(tree)) > 60:
            continue
        with R.quiet():
            p = from_str_tokens(D.preorder(tree))
            judge(m, p, env, **kw)


@workload(quick=64, thorough=800)
def written(m, rng, i):
    """programs written down by the harness, one-dimensional data"""
    ops = list(dict.fromkeys(["add"] + [str(o) for o in rng.choice(OPS1, int(rng.integers(3, 9)), replace=False)]))
    if not any(D.is_diff(o) for o in ops):
        ops.append("diff2")
    mod, env, names, _ = setup(rng, 1, ops)
    m.check(set(names) == {"x1", "u1", *env.params, *ops}, "library-is-what-was-asked", f"{names} for {ops} {list(env.params)}")
    random_programs(m, rng, names, env, 25)


@workload(quick=48, thorough=600)
def written_nd(m, rng, i):
    dim = 2 + i % 2
    ops = list(dict.fromkeys(["add", "mul"] + [str(o) for o in rng.choice(D.DIFFS_OF[dim] + ["sub", "div", "n2", "n3", "sin", "exp"],
                                                                           int(rng.integers(3, 7)), replace=False)]))
    if not any(D.base(o) in D.FD_NAMES or D.base(o) in D.LAPS for o in ops):
        ops.append(D.DIFFS_OF[dim][1])
    spatial = bool(rng.random() < 0.5)
    mod, env, names, _ = setup(rng, dim, ops, **({} if spatial else {"spatial_error": False}))
    random_programs(m, rng, names, env, 30, spatial=spatial)


@workload(quick=32, thorough=300)
def options(m, rng, i):
    """non-default task settings"""
    task = {}
    kw = {}
    if rng.random() < 0.6:
        task["add_const"] = kw["add_const"] = True
    if rng.random() < 0.6:
        task["max_depth"] = kw["max_depth"] = int(rng.integers(2, 6))
    if rng.random() < 0.6:
        kw["alpha"] = float(rng.choice([0.0, 0.05, 0.001]))
        task["metric_params"] = [kw["alpha"]]
    if rng.random() < 0.4:
        task["threshold"] = float(rng.choice([1e-2, 1e-1, 1.0]))
    # small fields: an intercept of the size of u_t is too small to be reported
    scale = float(10 ** rng.uniform(-4.5, -2.5)) if task.get("add_const") and rng.random() < 0.6 else None
    mod, env, names, _ = setup(rng, 1, ["add", "sub", "mul", "n2", "diff", "diff2", "cos"], scale=scale, **task)
    random_programs(m, rng, names, env, 25, **kw)


@workload(quick=24, thorough=240)
def searched(m, rng, i):
    """every program a real search produced"""
    from kd.model.discover.program import Program
    dim = [1, 1, 2, 3][i % 4]
    ops = None
    if dim == 1 and rng.random() < 0.5:
        ops = list(dict.fromkeys(["add", "mul", "diff"] + [str(o) for o in rng.choice(OPS1, 4, replace=False)]))
    mod, env, names, _ = setup(rng, dim, ops)
    with R.quiet():
        for e in range(2):
            mod.train_one_step(epoch=e, verbose=False)
        progs = list(Program.cache.values())
        for p in progs[:80]:
            m.saw("searched")
            judge(m, p, env)
