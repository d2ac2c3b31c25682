"""S01: the score and coefficients SGA reports are those of the terms it reports."""
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R

PROPERTY = "S01"
RULE = "distinct (scored term list, support) pairs whose score was recomputed from independently built features"
REQUIRE = {"fit": 8, "candidate": 100, "regression": 30, "guard-hit": 20}
ASSUME = ["terms whose value hinges on the zero-division guard, and rank-deficient feature sets, are only checked for self-consistency"]


def split_terms(s):
    """top-level '+' separates terms of a printed candidate"""
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == "+" and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return [o.strip() for o in out]


def reference_features(prob, trees):
    cols = [prob.fields[prob.target].reshape(-1)]
    for t in trees:
        cols.append(np.asarray(prob.eval(t), dtype=float).reshape(-1))
    return np.stack(cols, 1)


def conditioned(F):
    n = np.linalg.norm(F, axis=0)
    if not np.all(np.isfinite(n)) or n.min() <= 1e-150 or n.max() > 1e100:
        return False
    return np.linalg.cond(F / n) < 1e7 and F.shape[0] > 2 * F.shape[1]


def judge(m, F, y, w, score, mech, what, mse=None, noisy=False):
    """w, score against an independent feature matrix F."""
    w = np.asarray(w, dtype=float).reshape(-1)
    if not m.check(len(w) == F.shape[1], mech + ":one-coefficient-per-term", f"{what}: {len(w)} coefficients for {F.shape[1]} features"):
        return
    r = y - F @ w
    noise = 1e-11 * (np.abs(F) @ np.abs(w)).max() + 1e-13 * np.abs(y).max()
    m1 = np.mean(r ** 2)
    if mse is not None:
        m.check(abs(mse - m1) <= 1e-6 * m1 + noise ** 2 + 2 * noise * np.sqrt(m1), mech + ":mse", f"{what}: {mse} vs {m1}")
    if m1 > 1e4 * noise ** 2 and m1 > 0:
        want = R.aic_of(m1, w)
        slack = 1e-6 + 8 * noise / np.sqrt(m1)
        m.check(abs(score - want) <= slack, mech + ":score", f"{what}: reported {score}, recomputed {want}, w={w}")
    if noisy or not conditioned(F):
        m.saw("ill-conditioned")
        return
    S = np.flatnonzero(w)
    if len(S):
        Fs = F[:, S]
        g = np.abs(Fs.T @ r) / np.linalg.norm(Fs, axis=0)
        m.check(np.all(g <= 1e-6 * np.linalg.norm(y) + 1e-300), mech + ":least-squares-on-support",
                f"{what}: residual not orthogonal to selected features {g / np.linalg.norm(y)}")
    sc = np.linalg.norm(F, axis=0)
    wd = np.linalg.lstsq(F / sc, y, rcond=None)[0] / sc
    md = np.mean((y - F @ wd) ** 2)
    if md > 1e-24 * np.mean(y ** 2):
        m.check(score <= R.aic_of(md, wd) + 1e-6, mech + ":no-worse-than-dense",
                f"{what}: {score} vs dense {R.aic_of(md, wd)}")
    m.saw("well-conditioned")


def scaled(rng):
    """mostly order one, sometimes data in very small or large units"""
    return float(10.0 ** rng.uniform(-5, 4)) if rng.random() < 0.35 else 1.0


def zero_divisor(prob, t):
    """some division in the term has a divisor that vanishes on the whole grid"""
    if isinstance(t, str):
        return False
    if t[0] == "/" and np.all(np.abs(prob.eval(t[2])) <= 1e-10):
        return True
    return any(zero_divisor(prob, c) for c in t[1:] if not (t[0] in ("d", "d^2") and c is t[2]))


@workload(quick=300, thorough=3000)
def guarded(m, rng, i):
    """With the division guard switched on, terms dividing by an identically zero divisor are discarded."""
    import os
    from kd.model.sga.sgapde import pde as P
    ds, prob, kind = R.gen_problem(rng, scale=scaled(rng))
    ctx = R.make_context(ds)
    np.random.seed(int(rng.integers(2 ** 31)))
    old = os.environ.get("KD_SGA_DIVIDE_MODE")
    os.environ["KD_SGA_DIVIDE_MODE"] = "guard"
    try:
        for _ in range(6):
            cand = P.PDE(ctx, int(rng.integers(2, 5)), 5, float(rng.choice([0.3, 0.5])))
            trees = [R.tree_of(t) for t in cand.elements]
            hit = [zero_divisor(prob, t) for t in trees]
            near = [t for t, h in zip(trees, hit) if not h and (prob.sensitive(t) or prob.noisy(t) or
                    0 < np.max(np.abs(np.nan_to_num(prob.eval(t)))) < 1e-200)]
            with R.quiet():
                score, w = P.evaluate_mse(cand, ctx)
            m.saw("guarded")
            if any(hit):
                m.saw("guard-hit")
            if near:
                continue
            live = [t for t, h in zip(trees, hit) if not h and np.any(np.nan_to_num(prob.eval(t), nan=1.0, posinf=1., neginf=1.) != 0)]
            kept = [R.tree_of(t) for t in cand.elements]
            m.check(kept == live, "guard-discards-zero-divisions", f"{kind}: kept {kept}, expected {live} of {trees}")
            if kept == live and live:
                F = reference_features(prob, live)
                if np.all(np.isfinite(F)):
                    judge(m, F, prob.ut.reshape(-1), w, score, "guarded", f"{kind} {[R.show(t) for t in live]}",
                          noisy=any(prob.noisy(t) for t in live))
                    m.distinct(("guard", tuple(R.show(t) for t in live)))
    finally:
        if old is None:
            os.environ.pop("KD_SGA_DIVIDE_MODE")
        else:
            os.environ["KD_SGA_DIVIDE_MODE"] = old


@workload(quick=800, thorough=8000)
def candidates(m, rng, i):
    """Candidates exactly as the search scores them."""
    from kd.model.sga.sgapde import pde as P
    ds, prob, kind = R.gen_problem(rng, scale=scaled(rng))
    ctx = R.make_context(ds)
    np.random.seed(int(rng.integers(2 ** 31)))
    cand = P.PDE(ctx, int(rng.integers(2, 5)), int(rng.integers(1, 6)), float(rng.choice([0.3, 0.5, 0.8])))
    for step in range(3):
        trees = [R.tree_of(t) for t in cand.elements]
        with R.quiet():
            score, w, F = P.evaluate_mse(cand, ctx, return_matrix=True)
        live = [t for t in trees if np.any(np.nan_to_num(prob.eval(t), nan=1.0, posinf=1.0, neginf=1.0) != 0)]
        if any(prob.sensitive(t) for t in trees):
            m.saw("guarded-division")
        else:
            m.saw("candidate")
            Fref = reference_features(prob, live)
            kept = [R.tree_of(t) for t in cand.elements]
            # a term is dropped exactly when it vanishes on the whole grid
            near = [t for t in trees if 0 < np.max(np.abs(np.nan_to_num(prob.eval(t)))) < 1e-200 or prob.noisy(t)]
            if not near:
                m.check(kept == live, "vanishing-terms-dropped", f"{kind}: kept {kept} expected {live} of {trees}")
            if kept == live:
                if not live or not np.all(np.isfinite(Fref)):
                    m.check(score == np.inf, "unusable-candidate-scores-inf", f"{score} for {[R.show(t) for t in trees]}")
                    m.saw("unusable")
                else:
                    judge(m, Fref, prob.ut.reshape(-1), w, score, "candidate", f"{kind} {[R.show(t) for t in live]}",
                          noisy=any(prob.noisy(t) for t in live))
                    m.distinct((tuple(R.show(t) for t in live), tuple(np.flatnonzero(np.asarray(w).reshape(-1)))))
        if not cand.elements:
            return
        with R.quiet():
            cand.mutate(0.4)
            if rng.random() < 0.4:
                cand.replace()


@workload(quick=100, thorough=1000)
def fits(m, rng, i):
    """What an estimator reports after fitting."""
    from kd.model.kd_sga import KD_SGA
    ds, prob, kind = R.gen_problem(rng, scale=scaled(rng))
    with R.quiet():
        est = KD_SGA(sga_run=int(rng.integers(1, 4)), num=int(rng.integers(3, 7)), depth=int(rng.integers(2, 5)),
                     width=int(rng.integers(1, 5)), seed=int(rng.integers(1000))).fit_dataset(ds)
    m.saw("fit")
    det = est.best_equation_details_
    if not m.check(det is not None, "details-available", "no equation details after a fit"):
        return
    m.check(det.lhs in (f"{prob.target}_{prob.lhs}", f"{prob.target}{prob.lhs}"), "lhs-label", f"{det.lhs} for {prob.target}, {prob.lhs}")
    trees = [R.parse_inorder(s) for s in split_terms(est.best_pde_)]
    F = reference_features(prob, trees)
    y = prob.ut.reshape(-1)
    pred = np.asarray(det.predicted_rhs, dtype=float)
    if not m.check(pred.shape == prob.shape, "predicted-rhs-shape", f"{pred.shape} vs {prob.shape}"):
        return
    # reported score against the reported prediction: exact whatever the conditioning
    mse = np.mean((y - pred.reshape(-1)) ** 2)
    kmin, kmax = len(det.terms), len(trees) + 1
    if mse > 0:
        ks = [R.aic_of(mse, np.ones(k)) for k in range(kmin, kmax + 1)]
        m.check(min(abs(est.best_score_ - a) for a in ks) <= 1e-7 * max(1, abs(est.best_score_)), "score-is-aic-of-prediction",
                f"{kind}: score {est.best_score_} but the prediction gives {ks}")
        if kmin == kmax:
            m.saw("fully-dense")
    # every reported term is one of the winning candidate's terms (or the default field), once
    labels = [t.label for t in det.terms]
    m.check(all(abs(t.coefficient) >= 1e-5 for t in det.terms), "small-terms-hidden", str([t.coefficient for t in det.terms]))
    gen = [R.parse_inorder(t.label) for t in det.terms if t.source == "generated"]
    rest = list(trees)
    for g in gen:
        if not m.check(g in rest, "reported-term-in-candidate", f"{g} not in {est.best_pde_}"):
            return
        rest.remove(g)
    dflt = [t.label for t in det.terms if t.source == "default"]
    m.check(dflt in ([], [prob.target]), "default-term-name", f"{dflt} for target {prob.target}")
    if any(prob.sensitive(t) or prob.noisy(t) for t in trees) or not np.all(np.isfinite(F)):
        m.saw("guarded-division")
        return
    # coefficients x independently evaluated terms reproduce the prediction
    acc = np.zeros(y.shape)
    mag = np.zeros(y.shape)
    for t in det.terms:
        f = prob.fields[prob.target].reshape(-1) if t.source == "default" else prob.eval(R.parse_inorder(t.label)).reshape(-1)
        acc = acc + t.coefficient * f
        mag = mag + abs(t.coefficient) * np.abs(f)
    hidden = 1e-5 * np.abs(F).sum(1) if kmin < kmax else 0.0
    bad = np.abs(acc - pred.reshape(-1)) - (1e-8 * mag + hidden + 1e-10 * np.abs(y).max())
    m.check(np.all(bad <= 0), "prediction-is-sum-of-terms", f"{kind}: {labels} worst {bad.max()}")
    if mse > 0 and det.terms and abs(est.best_score_ - ks[0]) < 1e-6:      # no hidden tiny coefficient
        w = np.array([t.coefficient for t in det.terms])
        Fr = np.stack([prob.fields[prob.target].reshape(-1) if t.source == "default" else
                       prob.eval(R.parse_inorder(t.label)).reshape(-1) for t in det.terms], 1)
        judge(m, Fr, y, w, est.best_score_, "fit", f"{kind} {labels}")
    m.distinct((est.best_pde_, tuple(labels)))


@workload(quick=240, thorough=4000)
def regressions(m, rng, i):
    """The sparse regression on arbitrary well-posed matrices, incl. wildly scaled columns."""
    from kd.model.sga.sgapde.PDE_find import Train
    n, d = int(rng.integers(12, 80)), int(rng.integers(1, 7))
    F = rng.normal(size=(n, d))
    if rng.random() < 0.5 and d > 1:
        F[:, 1:] += rng.uniform(0, 3) * F[:, :1]
    F = F * 10.0 ** rng.uniform(-4, 4, size=d)
    w0 = rng.normal(size=d) * 10.0 ** rng.uniform(-2, 3, size=d) * (rng.random(d) < 0.6)
    y = F @ w0 + rng.choice([0.0, 1e-3, 0.3]) * rng.normal(size=n) * max(1e-6, np.std(F @ w0))
    if not np.any(y):
        raise Discard
    F0, y0 = F.copy(), y.copy()
    d_tol = float(rng.choice([1, 1, 0.1, 5]))
    with R.quiet():
        w, err, mse, aic = Train(F, y.reshape(-1, 1), float(rng.choice([0, 0, 1e-5])), d_tol)
    m.saw("regression")
    m.check(np.array_equal(F, F0) and np.array_equal(y, y0), "regression-inputs-untouched", "")
    judge(m, F0, y0, w, aic, "regression", f"n={n} d={d}", mse=mse)
    m.check(abs(err - np.linalg.norm(y0 - F0 @ w[:, 0])) <= 1e-9 * np.linalg.norm(y0), "regression:data-error", f"{err}")
    m.distinct(("reg", i, tuple(np.flatnonzero(w))))
