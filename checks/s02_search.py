"""S02: the SGA search keeps the best candidates it has evaluated and returns the best of them."""
import contextlib, copy, io, re
import numpy as np
from vkit import workload
from vkit import sga_ref as R

PROPERTY = "S02"
RULE = "distinct (operation, population before, children, population after) selection steps judged"
REQUIRE = {"evaluation": 300, "run": 10, "generation": 20}
ASSUME = ["candidates with AIC below -100 drawn for the initial pool are rejected by design and not counted as lost"]


class Trace:
    """Records every scored candidate and the population around each search operation."""

    def __init__(self):
        self.evals, self.steps, self.sga = [], [], None

    @contextlib.contextmanager
    def attach(self):
        from kd.model.sga.sgapde import pde as P, solver as S
        orig = P.evaluate_mse
        tr = self

        def spy(a_pde, context, is_term=False, **kw):
            r = orig(a_pde, context, is_term, **kw)
            if not is_term:
                tr.evals.append((a_pde.visualize(), float(r[0])))
            return r
        saved = {(P, "evaluate_mse"): P.evaluate_mse}
        P.evaluate_mse = spy
        if getattr(S, "evaluate_mse", None) is orig:
            saved[(S, "evaluate_mse")] = orig
            S.evaluate_mse = spy
        for name in ("cross_over", "change"):
            f = getattr(S.SGA, name, None)
            if f is None:
                continue
            saved[(S.SGA, name)] = f

            def wrap(self, *a, _f=f, _n=name, **k):
                tr.sga = self
                before = ([e.visualize() for e in self.eqs], [float(x) for x in self.mses])
                n0 = len(tr.evals)
                out = _f(self, *a, **k)
                tr.steps.append((_n, before, tr.evals[n0:], ([e.visualize() for e in self.eqs],
                                 [float(x) for x in self.mses]), copy.deepcopy(self.eqs)))
                return out
            setattr(S.SGA, name, wrap)
        try:
            yield
        finally:
            for (o, n), f in saved.items():
                setattr(o, n, f)


def judge(m, tr, num, ctx, best_eq, best_score, out):
    from kd.model.sga.sgapde import pde as P
    finite = [(s, a) for s, a in tr.evals if np.isfinite(a) and a >= -100 or a == -np.inf]
    m.saw("evaluation", len(tr.evals))
    m.saw("run")
    m.check(np.isfinite(best_score) or best_score == -np.inf, "result-has-score", str(best_score))
    best_seen = min(a for _, a in finite)
    m.check(best_score <= best_seen, "returns-best-evaluated", f"returned {best_score}, best evaluated {best_seen}")
    m.check(any(s == best_eq and a == best_score for s, a in tr.evals), "result-was-evaluated", f"{best_eq} {best_score}")
    prev = None
    for name, (eq0, a0), kids, (eq1, a1), objs in tr.steps:
        m.saw("generation")
        m.check(len(eq1) == len(a1) == num, "population-size", f"{name}: {len(eq1)} eqs {len(a1)} scores, pool {num}")
        m.check(all(np.isfinite(x) or x == -np.inf for x in a1), "no-unusable-member", str(a1))
        pool = sorted(a0 + [a for _, a in kids])
        want = pool[:num]
        m.check(np.array_equal(np.sort(a1), want), f"{name}:keeps-best", f"{name}: kept {sorted(a1)} best available {want}")
        cnt = {}
        for p in list(zip(eq0, a0)) + list(kids):
            cnt[p] = cnt.get(p, 0) + 1
        for p in zip(eq1, a1):
            if not m.check(cnt.get(p, 0) > 0, f"{name}:members-are-parents-or-children", f"{p}"):
                break
            cnt[p] -= 1
        if prev is not None:
            m.check(sorted(zip(*prev)) == sorted(zip(eq0, a0)), "population-stable-between-operations", "")
        m.check(min(a1) <= min(a0), "best-never-worsens", f"{name}: {min(a0)} -> {min(a1)}")
        # the stored score is the score of the stored candidate
        for o, s, a in zip(objs, eq1, a1):
            with R.quiet():
                a2, _ = P.evaluate_mse(copy.deepcopy(o), ctx)
            if not m.check(a2 == a or abs(a2 - a) <= 1e-9 * abs(a), "stored-score-matches-candidate", f"{name}: {s} stored {a} evaluates to {a2}"):
                break
        m.distinct((name, tuple(a0), tuple(kids), tuple(a1)))
        prev = (eq1, a1)
    shown = [float(x) for x in re.findall(r"generation best_aic & best Eq: (\S+),", out)]
    m.saw("reported-generation", len(shown))
    m.check(all(b <= a for a, b in zip(shown, shown[1:])), "reported-best-monotone", str(shown))
    if shown:
        m.check(abs(shown[-1] - best_score) <= 1e-9 * abs(best_score) + 1e-12, "reported-best-is-final", f"{shown[-1]} {best_score}")


@workload(quick=60, thorough=800, timeout=200)
def runs(m, rng, i):
    from kd.model.kd_sga import KD_SGA
    ds, prob, kind = R.gen_problem(rng)
    num = int(rng.integers(2, 9))
    tr = Trace()
    buf = io.StringIO()
    with tr.attach(), contextlib.redirect_stdout(buf):
        est = KD_SGA(sga_run=int(rng.integers(1, 6)), num=num, depth=int(rng.integers(2, 5)), width=int(rng.integers(1, 5)),
                     p_var=float(rng.choice([0.3, 0.5, 0.7])), p_mute=float(rng.choice([0.1, 0.3, 0.8])),
                     p_cro=float(rng.choice([0.2, 0.5, 1.0])), seed=int(rng.integers(10 ** 6))).fit_dataset(ds)
    judge(m, tr, num, est.context_, est.best_pde_, est.best_score_, buf.getvalue())


@workload(quick=4, thorough=40, timeout=200)
def long_runs(m, rng, i):
    """More generations on one pool: repeats, collapsing diversity, heavily tied scores."""
    from kd.model.kd_sga import KD_SGA
    ds, prob, kind = R.gen_problem(rng, ["legacy", "xyt", "tx", "multi"][i % 4])
    tr = Trace()
    buf = io.StringIO()
    num = int(rng.integers(6, 16))
    with tr.attach(), contextlib.redirect_stdout(buf):
        est = KD_SGA(sga_run=25, num=num, depth=int(rng.integers(2, 4)), width=int(rng.integers(1, 4)),
                     seed=int(rng.integers(10 ** 6))).fit_dataset(ds)
    judge(m, tr, num, est.context_, est.best_pde_, est.best_score_, buf.getvalue())


@workload(quick=12, thorough=120, timeout=200)
def continued(m, rng, i):
    """Search resumed on the same pool object keeps the same guarantees."""
    from kd.model.sga.sgapde import solver as S
    ds, prob, kind = R.gen_problem(rng)
    ctx = R.make_context(ds)
    num = int(rng.integers(3, 8))
    tr = Trace()
    buf = io.StringIO()
    with tr.attach(), contextlib.redirect_stdout(buf):
        sga = S.SGA(context=ctx, num=num, depth=3, width=3, p_var=0.5, p_mute=0.3, p_rep=1.0, p_cro=0.5, pde_lib=[], err_lib=[])
        m.check(len(sga.eqs) == len(sga.mses) == num, "initial-pool-size", "")
        m.check(list(sga.mses) == sorted(sga.mses), "initial-pool-sorted", str(sga.mses))
        b1 = sga.run(2)[1]
        eq, b2 = sga.run(2)
    m.check(b2 <= b1, "resume-never-worsens", f"{b1} -> {b2}")
    judge(m, tr, num, ctx, eq.visualize(), b2, buf.getvalue())
