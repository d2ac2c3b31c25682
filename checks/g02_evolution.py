"""G02: DLGA's search keeps the best equations it has scored and never loses the best."""
import copy, collections
import numpy as np
from vkit import workload
from vkit import sga_ref as R
from vkit import dlga_ref as D

PROPERTY = "G02"
RULE = "distinct (operation, population before, population after) steps of real DLGA searches judged by the trace checker"
REQUIRE = {"search": 20, "generation": 60, "step:select": 60, "scored": 500}
ASSUME = ["equal fitness values may be represented by any of the tied individuals"]


def snap(pop):
    return [[list(mod) for mod in ch] for ch in pop]


def aliased(pop):
    """1 if two members (or two terms) are one mutable object"""
    objs = [c for c in pop if isinstance(c, list)] + [x for c in pop for x in c if isinstance(x, list)]
    return int(len({id(o) for o in objs}) < len(objs))


def key(ch):
    return tuple(sorted(tuple(sorted(mod)) for mod in ch))


def tracer(base):
    class Traced(base):
        def _rec(self, what, fn):
            before = snap(self.Chrom)
            r = fn()
            self._alias = getattr(self, "_alias", 0) + aliased(self.Chrom)
            self.steps.append((what, before, snap(self.Chrom), None if what != "select" else
                               ([float(f) for f in self.Fitness], [np.array(c, dtype=float) for c in self.coef], list(self.name))))
            return r

        def cross_over(self):
            return self._rec("cross", super().cross_over)

        def mutation(self):
            return self._rec("mutate", super().mutation)

        def delete_duplicates(self):
            return self._rec("dedupe", super().delete_duplicates)

        def select(self):
            return self._rec("select", super().select)

        def get_fitness(self, g, p):
            r = super().get_fitness(g, p)
            self.scored.append(float(r[1]))
            return r
    return Traced


def build(rng, n_ops=None, **kw):
    from kd.model.kd_dlga import KD_DLGA
    model, ops = D.make_model(rng, **kw)
    T = tracer(KD_DLGA)
    model.__class__ = T
    model.steps, model.scored = [], []
    return model, ops


def fitness_of(model, ch):
    F = np.stack([np.prod([model._cols[g] for g in mod], axis=0) for mod in ch], 1)
    best = []
    for nm in ("u_t", "u_tt"):
        lhs = getattr(model, nm).reshape(-1).astype(float)
        A = np.concatenate([lhs[:, None], F], 1)
        U, s, V = np.linalg.svd(A, full_matrices=False)
        v = V[-1] / (V[-1][0] + 1e-8)
        best.append((float(np.mean((lhs + F @ v[1:]) ** 2)), abs(V[-1][0]), (s[-2] - s[-1]) / s[0]))
    mse = min(b[0] for b in best)
    sure = all(b[1] > 1e-2 and b[2] > 1e-4 for b in best)
    return mse + model.epi * sum(len(x) for x in ch), sure


def judge(m, model, ops, result, pop, gens):
    nops = len(ops)
    sel = [s for s in model.steps if s[0] == "select"]
    m.check(getattr(model, "_alias", 0) == 0, "members-are-independent", f"{getattr(model, '_alias', 0)} steps left two members sharing genes")
    for what, before, after, extra in model.steps:
        m.saw("step:" + what)
        m.check(len(after) == pop, "population-size", f"{what}: {len(after)} instead of {pop}")
        m.check(all(0 <= g < nops for ch in after for mod in ch for g in mod), "genes-name-operators", what)
        m.check(all(len(ch) >= 1 and all(len(mod) >= 1 for mod in ch) for ch in after), "no-empty-equation", f"{what} {after}")
        m.distinct((what, str(before), str(after)))
        if what == "cross":
            cb = collections.Counter(tuple(mod) for ch in before for mod in ch)
            ca = collections.Counter(tuple(mod) for ch in after for mod in ch)
            m.check(cb == ca, "crossover-conserves-modules", f"{before} -> {after}")
            m.check([len(c) for c in before] == [len(c) for c in after], "crossover-exchanges-one-for-one", f"{before} -> {after}")
            m.check(all(sum(x != y for x, y in zip(b, a)) <= 1 for b, a in zip(before, after)),
                    "crossover-single-exchange", f"{before} -> {after}")
        elif what == "mutate":
            for b, a in zip(before, after):
                kb, ka = collections.Counter(map(tuple, b)), collections.Counter(map(tuple, a))
                m.check(abs(len(a) - len(b)) <= 1, "mutation-changes-one-term", f"{b} -> {a}")
                m.check(sum((ka - kb).values()) <= 2 and sum((kb - ka).values()) <= 2, "mutation-edits-locally", f"{b} -> {a}")
                if model.add_rate == 0 and model.delete_rate == 0:
                    m.check(len(a) == len(b) and sum(len(x) for x in a) == sum(len(x) for x in b), "mutation-respects-zero-rates", f"{b} -> {a}")
                    if model.mutate_rate == 0:
                        m.check(a == b, "mutation-respects-zero-rates", f"{b} -> {a}")
        elif what == "dedupe":
            for b, a in zip(before, after):
                m.check(set(tuple(sorted(x)) for x in b) == set(tuple(sorted(x)) for x in a), "dedupe-keeps-terms", f"{b} -> {a}")
                ks = [tuple(sorted(x)) for x in a]
                m.check(len(ks) == len(set(ks)), "dedupe-removes-repeats", f"{b} -> {a}")
        elif what == "select":
            fit, coef, name = extra
            k = pop // 2
            m.saw("generation")
            m.check(len(fit) == len(coef) == len(name) == k, "half-survives", f"{len(fit)} {len(coef)} {len(name)} of {pop}")
            m.check(all(a <= b for a, b in zip(fit, fit[1:])), "survivors-ranked", str(fit))
            mine = [fitness_of(model, ch) for ch in before]
            if all(s for _, s in mine):
                m.saw("ranking-recomputed")
                want = sorted(v for v, _ in mine)[:k]
                m.close(fit, want, "survivors-are-best-half", rtol=1e-3, atol=1e-6 * (1 + abs(want[-1])), msg=f"{before}")
            # repeated terms make the regression singular: they are gone before anything is scored
            m.check(all(len(set(key(ch))) == len(ch) for ch in before), "no-repeated-terms-are-scored",
                    lambda: str([ch for ch in before if len(set(key(ch))) < len(ch)][:2]))
            pool = collections.Counter(key(c) for c in before)
            m.check(all(key(c) in pool for c in after[:k]), "survivors-from-population", f"{after[:k]}")
            for ch, f, c in zip(after[:k], fit, coef):
                m.check(c.shape[0] == len(ch), "coefficients-follow-survivor", f"{ch} {c.shape}")
                v, sure = fitness_of(model, ch)
                if sure:
                    m.check(abs(v - f) <= 1e-3 * abs(v) + 1e-6, "fitness-follows-survivor", f"{ch}: stored {f} recomputed {v}")
    if sel:
        best = [s[3][0][0] for s in sel if s[3][0]]
        m.check(all(b <= a + 1e-12 + 1e-9 * abs(a) for a, b in zip(best, best[1:])), "best-never-worsens", str(best))
        tail = model.fitness_history[-len(best):]
        m.close(tail, best, "history-records-best", rtol=1e-9, msg="fitness_history")
        m.check([e["fitness"] for e in model.evolution_history[-len(best):]] == tail, "evolution-history-agrees", "")
        m.check([e["generation"] for e in model.evolution_history] == list(range(1, len(model.evolution_history) + 1)), "generation-numbers",
                str([e["generation"] for e in model.evolution_history]))
        for e, s in zip(model.evolution_history[-len(best):], sel):
            have = s[2]
            m.check(e["population_size"] == pop and e["complexity"] == len(have[0]) and e["unique_modules"] == len({t for ch in have for t in key(ch)}),
                    "evolution-history-describes-the-population", lambda: f"{e} for {have}")
        chrom, coef, fit, name = result
        m.check(fit == best[-1] and chrom == sel[-1][2][0], "returns-ranked-first", f"{fit} {best[-1]}")
        # nothing scored in a ranking step beats what is returned
        n = sum(len(s[1]) for s in sel)
        scored = model.scored[-n:] if n <= len(model.scored) else model.scored
        m.saw("scored", len(scored))
        m.check(fit <= min(scored) + 1e-12, "returns-best-scored", f"{fit} vs {min(scored)}")
    m.check(len(sel) == gens and len(model.fitness_history) >= gens, "one-ranking-per-generation", f"{len(sel)} of {gens}")


@workload(quick=64, thorough=900, timeout=200)
def searches(m, rng, i):
    """evolution over closed-form features"""
    import torch
    D.seed_all(int(rng.integers(1 << 30)))
    pop, gens = int(rng.integers(4, 31)), int(rng.integers(2, 15))
    model, ops = build(rng, pop=pop, gens=gens)
    if rng.random() < 0.4:
        model.mutate_rate, model.delete_rate, model.add_rate = (float(v) for v in rng.choice([0.0, 0.3, 0.9, 1.0], 3))
        model.max_length = int(rng.integers(1, 7))
    n = int(rng.integers(20, 50))
    model._cols = rng.normal(size=(len(ops), n)) * 10.0 ** rng.uniform(-1, 1, (len(ops), 1))
    model.Theta = torch.tensor(model._cols.T.copy(), dtype=torch.float64)
    a, b = rng.normal(size=2)
    model.u_t = (a * model._cols[0] + (b * model._cols[-1] * model._cols[0] if rng.random() < 0.5 else 0) + 0.05 * rng.normal(size=n)).reshape(-1, 1)
    model.u_tt = rng.normal(size=(n, 1)) if rng.random() < 0.7 else (b * model._cols[-1]).reshape(-1, 1) + 0.01 * rng.normal(size=(n, 1))
    with R.quiet():
        res = model.evolution()
    m.saw("search")
    judge(m, model, ops, res, pop, gens)
    if rng.random() < 0.25:          # a second search on the same estimator
        model.steps, model.scored = [], []
        with R.quiet():
            res = model.evolution()
        judge(m, model, ops, res, pop, gens)


@workload(quick=24, thorough=300, timeout=200)
def base_searches(m, rng, i):
    """the expert-level DLGA class; it calls its operators through the class, so they are observed there"""
    import torch
    from kd.model import DLGA
    D.seed_all(int(rng.integers(1 << 30)))
    pop, gens = int(rng.integers(4, 31)), int(rng.integers(2, 15))
    model = DLGA(epi=float(rng.choice([0.0, 1e-3, 0.01, 0.1])), input_dim=2, max_iter=5)
    model.pop_size, model.n_generations = pop, gens
    model.steps, model.scored = [], []
    if rng.random() < 0.4:
        model.mutate_rate, model.delete_rate, model.add_rate = (float(v) for v in rng.choice([0.0, 0.3, 0.9, 1.0], 3))
        model.max_length = int(rng.integers(1, 7))
    n = int(rng.integers(20, 50))
    model._cols = rng.normal(size=(6, n)) * 10.0 ** rng.uniform(-1, 1, (6, 1))
    model.Theta = torch.tensor(model._cols.T.copy(), dtype=torch.float64)
    a, b = rng.normal(size=2)
    model.u_t = (a * model._cols[0] + b * model._cols[3] * model._cols[0] + 0.05 * rng.normal(size=n)).reshape(-1, 1)
    model.u_tt = rng.normal(size=(n, 1)) if rng.random() < 0.7 else (b * model._cols[1]).reshape(-1, 1) + 0.01 * rng.normal(size=(n, 1))
    saved = {k: getattr(DLGA, k) for k in ("cross_over", "mutation", "delete_duplicates", "select", "get_fitness")}
    names = {"cross_over": "cross", "mutation": "mutate", "delete_duplicates": "dedupe", "select": "select"}

    def wrap(k):
        def f(self, *args, **kw):
            before = snap(self.Chrom)
            r = saved[k](self, *args, **kw)
            if k == "get_fitness":
                self.scored.append(float(r[1]))
            else:
                self._alias = getattr(self, "_alias", 0) + aliased(self.Chrom)
                self.steps.append((names[k], before, snap(self.Chrom), None if k != "select" else
                                   ([float(v) for v in self.Fitness], [np.array(c, dtype=float) for c in self.coef], list(self.name))))
            return r
        return f
    try:
        for k in saved:
            setattr(DLGA, k, wrap(k))
        with R.quiet():
            res = model.evolution()
    finally:
        for k, f in saved.items():
            setattr(DLGA, k, f)
    m.saw("search")
    judge(m, model, ["u", "u_x", "u_xx", "u_xxx"], res, pop, gens)


@workload(quick=16, thorough=160, timeout=200)
def whole_fits(m, rng, i):
    """evolution inside a real fit"""
    D.seed_all(int(rng.integers(1 << 30)))
    pop, gens = int(rng.integers(4, 16)), int(rng.integers(1, 8))
    model, ops = build(rng, pop=pop, gens=gens)
    ds, *_ = D.make_dataset(rng)
    got = {}
    orig = model.evolution

    def evo():
        model._cols = model.Theta.detach().double().numpy().T
        got["r"] = orig()
        return got["r"]
    model.evolution = evo
    with R.quiet():
        model.fit_dataset(ds)
    m.saw("search")
    if "r" in got:
        judge(m, model, ops, got["r"], pop, gens)
