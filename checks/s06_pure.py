"""S06: an SGA fit depends on its dataset, parameters and seed only, and leaves the dataset alone."""
import contextlib, random
import numpy as np
from vkit import workload
from vkit import sga_ref as R

PROPERTY = "S06"
RULE = "distinct (dataset kind, parameters, result) fits replayed under a perturbed history"
REQUIRE = {"replay": 10, "frozen-array": 20}


def arrays(ds):
    out = {}
    for n in ("x", "t", "usol"):
        v = getattr(ds, n, None)
        if isinstance(v, np.ndarray):
            out[n] = v
    for n in ("fields_data", "coords_1d", "param_fields"):
        for k, v in (getattr(ds, n, None) or {}).items():
            if isinstance(v, np.ndarray):
                out[f"{n}.{k}"] = v
    return out


def outcome(est):
    d = est.best_equation_details_
    return (est.best_pde_, float(est.best_score_), d.lhs, tuple((t.label, t.source, t.coefficient) for t in d.terms),
            est.equation_latex(), d.predicted_rhs.tobytes())


@workload(quick=150, thorough=2000, timeout=200)
def replays(m, rng, i):
    from kd.model.kd_sga import KD_SGA
    ds, prob, kind = R.gen_problem(rng)
    kw = dict(sga_run=int(rng.integers(1, 5)), num=int(rng.integers(3, 8)), depth=int(rng.integers(2, 5)),
              width=int(rng.integers(1, 5)), p_var=float(rng.choice([0.3, 0.5])), p_mute=float(rng.choice([0.3, 0.6])),
              p_cro=float(rng.choice([0.3, 0.5, 1.0])), seed=int(rng.choice([0, 0, 1, rng.integers(1000), 2 ** 31 + 5])))
    arrs = arrays(ds)
    before = {k: v.copy() for k, v in arrs.items()}
    attrs = {k: repr(v) for k, v in vars(ds).items() if isinstance(v, (str, int, float, list, tuple))}
    for v in arrs.values():        # any in-place write raises inside the solver
        with contextlib.suppress(ValueError):
            v.flags.writeable = False
            m.saw("frozen-array")
    with R.quiet():
        a = KD_SGA(**kw).fit_dataset(ds)
    ra = outcome(a)
    # perturb everything a fit must not depend on
    for v in arrs.values():
        with contextlib.suppress(ValueError):
            v.flags.writeable = True
    mode = ["rng", "other-fit", "refit", "rebuilt"][int(rng.integers(4))]
    np.random.seed(int(rng.integers(2 ** 31)))
    random.seed(int(rng.integers(2 ** 31)))
    np.random.rand(int(rng.integers(1, 50)))
    with R.quiet():
        if mode == "other-fit":
            ds2, _, _ = R.gen_problem(rng)
            KD_SGA(sga_run=1, num=3, depth=3, width=3, seed=7).fit_dataset(ds2)
        if mode == "refit":
            ds2, _, _ = R.gen_problem(rng)
            b = KD_SGA(**kw).fit_dataset(ds2).fit_dataset(ds)
        else:
            b = KD_SGA(**kw).fit_dataset(ds)
    rb = outcome(b)
    m.saw("replay")
    m.check(ra == rb, "same-inputs-same-result", f"{kind} after {mode}: {ra[:4]} vs {rb[:4]}")
    m.check(outcome(a) == ra, "earlier-result-unaffected", f"{kind} {mode}")
    now = arrays(ds)
    m.check(set(now) == set(before), "dataset-keys", "")
    for k, v in before.items():
        m.check(k in now and np.array_equal(now[k], v), "dataset-unchanged", f"{kind}: {k} modified")
    m.check(attrs == {k: repr(v) for k, v in vars(ds).items() if isinstance(v, (str, int, float, list, tuple))}, "dataset-attributes-unchanged", "")
    p = b.get_params() if hasattr(b, "get_params") else {}
    m.check(all(p.get(k, v) == v for k, v in kw.items()), "parameters-unchanged", f"{p}")
    m.distinct((kind, tuple(sorted(kw.items())), ra[0], mode))


@workload(quick=48, thorough=500)
def evaluation_is_pure(m, rng, i):
    """Scoring candidates never changes the problem data later candidates are scored on."""
    from kd.model.sga.sgapde import pde as P
    import copy
    ds, prob, kind = R.gen_problem(rng)
    ctx = R.make_context(ds)
    np.random.seed(int(rng.integers(2 ** 31)))
    first = P.PDE(ctx, 4, 4, 0.5)
    snap = {str(e[0]): np.array(e[2], dtype=float) for e in ctx.VARS}
    ut = ctx.ut.copy()
    dt = np.array(ctx.default_terms)
    with R.quiet():
        s0 = P.evaluate_mse(copy.deepcopy(first), ctx)
        for _ in range(12):
            c = P.PDE(ctx, int(rng.integers(2, 6)), 4, float(rng.choice([0.3, 0.6])))
            P.evaluate_mse(c, ctx)
            c.mutate(0.5) if c.elements else None
            P.evaluate_mse(c, ctx) if c.elements else None
            m.saw("scored")
        s1 = P.evaluate_mse(copy.deepcopy(first), ctx)
    for e in ctx.VARS:
        m.check(np.array_equal(np.array(e[2], dtype=float), snap[str(e[0])]), "problem-data-unchanged", f"{kind}: {e[0]}")
    m.check(np.array_equal(ctx.ut, ut) and np.array_equal(np.array(ctx.default_terms), dt), "problem-data-unchanged", kind)
    m.check(s0[0] == s1[0] and np.array_equal(np.asarray(s0[1]), np.asarray(s1[1])), "same-candidate-same-score", f"{kind}: {s0[0]} then {s1[0]}")
    m.saw("replay")
