"""E01: EqGPT's words mean what they say and rewards are those of the printed equation."""
import numpy as np
from vkit import workload, Discard
from vkit import eqgpt_ref as Q
from vkit import sga_ref as R

PROPERTY = "E01"
RULE = "distinct (word or sentence, field, variable order) evaluations recomputed"
REQUIRE = {"word": 300, "reward": 150, "positive": 60, "zero": 30, "duplicate": 100, "mask": 8, "nan": 3, "pole": 40, "malformed": 80}
ASSUME = ["the surrogate is stood in for by analytic fields; derivatives are exact automatic differentiation in both",
          "terms with the same factors but different divisions may or may not count as duplicates"]
ORDERS = [["t", "x"], ["x", "t"], ["t", "x", "y"], ["x", "y", "t"], ["y", "t", "x"], ["t", "x", "y", "z"], ["z", "t", "y", "x"]]


class Field:
    """an analytic field over the named axes"""

    root = None         # axis on which the field vanishes

    def __init__(self, rng, variables, offset=None, scale=1.0):
        self.k = rng.uniform(0.4, 2.0, (3, len(variables)))
        self.p = rng.uniform(0, 6, 3)
        self.a = rng.uniform(0.3, 1.0, 3) * scale
        self.c = float(offset if offset is not None else self.a.sum() + rng.uniform(0.5, 2))

    def __call__(self, db):
        import torch
        k, p, a = (torch.tensor(v, dtype=db.dtype) for v in (self.k, self.p, self.a))
        u = (torch.sin(db @ k.T + p) @ a + self.c).reshape(-1, 1)
        return u if self.root is None else u * db[:, self.root:self.root + 1]


def points(rng, n, variables, dtype, lo=0.3, hi=2.5):
    import torch
    return torch.tensor(rng.uniform(lo, hi, (n, len(variables))), dtype=dtype).requires_grad_(True)


def vocab():
    from kd.model.eqgpt import gpt_model as G
    return list(G.id2word), dict(G.word2id)


@workload(quick=210, thorough=2000)
def words(m, rng, i):
    """every word of the vocabulary"""
    import torch
    from kd.model.eqgpt import calculate_terms as C
    id2word, _ = vocab()
    variables = ORDERS[i % len(ORDERS)]
    net = Field(rng, variables)
    nt, nx = int(rng.integers(2, 5)), int(rng.integers(2, 6))
    db = points(rng, nt * nx, variables, torch.float64)
    e = Q.Env(net, db, variables)
    for w in id2word[6:] + [w for w in Q.WORDS if w not in id2word]:
        if not Q.needs(w) <= set(variables) or w == "BiLaplace(u)" and "z" in variables:
            continue
        want = Q.value(w, e)
        for fn, args in ((C.calculate_terms, (nx, nt)), (C.calculate_terms_PINN, ())):
            got = fn(w, net, db, variables, *args)
            if not m.check(got is not None, "known-word", f"{fn.__name__} {w}"):
                continue
            got = got.detach().numpy() if fn is C.calculate_terms_PINN else np.asarray(got)
            got = got.reshape(-1)
            m.check(got.shape == want.shape, "one-value-per-point", f"{w}: {got.shape}")
            if got.shape == want.shape:
                m.close(got, want, "word-value", 1e-7, 1e-7 * max(1, np.abs(want).max()), f"{fn.__name__} {w} {variables}")
        m.saw("word")
        m.distinct((w, tuple(variables), net.c))


def sentence(rng, pool, w2i, weird=0.1):
    """a random right hand side after ut, sometimes malformed"""
    out = ["ut" if rng.random() < 0.85 else str(rng.choice(pool)), "+"]
    for k in range(int(rng.integers(1, 8))):
        out += [str(rng.choice(pool)), str(rng.choice(["+", "+", "+", "*", "*", "/"]))]
    out = out[:-1]
    if rng.random() < 0.4:        # repeat a term
        t = "".join(w if w not in "+" else " " for w in out).split() and split_words(out)
        again = list(t[int(rng.integers(len(t)))])
        if len(again) == 3 and again[1] == "*" and rng.random() < 0.7:
            again = again[::-1]
        out += ["+"] + again
    if rng.random() < weird:
        out += [str(rng.choice(["+", "*", "/"]))]
    elif rng.random() < 0.9:
        out += ["E"]
    return [w2i[w] for w in out]


def split_words(out):
    t = [[]]
    for w in out:
        if w == "+":
            t.append([])
        else:
            t[-1].append(w)
    return t


def factors(term):
    """(numerator factors, denominator factors)"""
    num, den = [term[0]], []
    for op, w in zip(term[1::2], term[2::2]):
        (num if op == "*" else den).append(w)
    return tuple(sorted(num)), tuple(sorted(den))


def judge_duplicates(m, words, kept, label):
    a, b = [t for t in split_words(words)], split_words(kept)
    m.check(all(t in a for t in b), "duplicates-adds-nothing", label)
    m.check(b[:1] == a[:1], "first-term-kept", label)
    m.check([a.index(t) for t in b] == sorted(a.index(t) for t in b), "order-kept", label)
    f = [factors(t) if t else () for t in b]
    m.check(len(set(f)) == len(f), "no-duplicates-left", label)
    bags = {tuple(sorted(t[::2])) for t in b}
    m.check(all(tuple(sorted(t[::2])) in bags for t in a), "only-duplicates-dropped", label)
    m.saw("duplicate")


@workload(quick=1600, thorough=12000, timeout=60)
def rewards(m, rng, i):
    """a candidate's reward"""
    import torch
    from kd.model.eqgpt import continue_train_GPT_all as T
    id2word, w2i = vocab()
    variables = ["t", "x"] if i % 3 else ORDERS[int(rng.integers(len(ORDERS)))]
    single = i % 2 == 0
    dtype = torch.float32 if single else torch.float64
    mode = ["plain", "plain", "scales", "nan", "zero", "poles", "plain", "plain", "nan", "poles"][i % 10]
    negative = int(rng.integers(3))
    nets, dbs, nx, nt = [], [], [], []
    for c in range(int(rng.integers(1, 4))):
        scale = float(10 ** rng.uniform(-1, 0.5)) if mode != "scales" else float(10 ** rng.uniform(-3, 2))
        offset = None if mode != "zero" else 0.0
        f = Field(rng, variables, offset, scale)
        if mode == "scales":
            f.k = f.k * float(10 ** rng.uniform(0, 0.8))
        a, b = int(rng.integers(4, 9)), int(rng.integers(4, 9))
        lo = -2.0 if mode == "nan" and (c == negative or rng.random() < .3) else 0.3
        nets.append(f)
        dbs.append(points(rng, a * b, variables, dtype, lo=lo))
        nx.append(a)
        nt.append(b)
        if mode == "poles":            # x = 0 at some points
            f.root = variables.index("x") if c == negative else None
            with torch.no_grad():
                dbs[-1][torch.tensor(rng.permutation(a * b)[:int(rng.integers(1, 5))]), variables.index("x")] = 0
    mask = T.get_mask_invalid(variables)
    pool = [w for w, v in zip(id2word, mask.tolist()) if v and w2i[w] > 5 and not (w == "BiLaplace(u)" and "z" in variables)]
    if mode == "nan":
        pool = [w for w in pool if rng.random() < 0.2] + ["sqrt(x)", "ux"]
    if mode == "poles":
        pool = [w for w in pool if rng.random() < 0.15] + ["x", "ux", "x^2"] + [w for w in ("(1/u)xx", "(u^-2*ux)x") if w in pool and rng.random() < .5]
    for rep in range(2):
        s = sentence(rng, pool, w2i)
        names = [id2word[t] for t in s]
        label = f"{''.join(names)} {variables} {mode}"
        before, m0 = list(s), mask.clone()
        kept = T.delete_duplicate(list(s))
        ended = names[:-1] if names[-1] == "E" else names
        kw = [id2word[t] for t in kept]
        m.check(kw[-1:] == ["E"], "ends", label)
        judge_duplicates(m, ended, kw[:-1], label + " / " + "".join(kw))
        vals = {}
        with R.quiet(), np.errstate(all="ignore"):
            r, vals, mask = T.calculate_reward(list(s), nets, dbs, vals, mask, variables, nx, nt)
            want, bad = Q.reward(kw[:-1], [Q.Env(f, d, variables) for f, d in zip(nets, dbs)], variables, 1e-3 if single else 1e-9)
            same = True
            if mode == "poles":        # where the formula used decides between NaN and infinity
                from kd.model.eqgpt import calculate_terms as C
                got = {w for w in kw if w not in Q.OPS and w != "E" and Q.needs(w) <= set(variables) for f, d, p, q in zip(nets, dbs, nx, nt)
                       if np.isnan(C.calculate_terms(w, f, d, variables, p, q)).any()} if want != {0.0} or bad else bad
                same, bad = got == bad, got
        r = float(r)
        m.check(np.isfinite(r), "finite", f"{label}: {r}")
        m.check(r <= 1 + 1e-9, "at-most-one", f"{label}: {r}")
        changed = {id2word[k] for k in range(len(id2word)) if float(mask[k]) != float(m0[k])}
        m.check(all(float(mask[w2i[w]]) == 0 for w in changed) and changed <= bad, "mask", f"{label}: {changed} {bad}")
        m.check(all(float(mask[w2i[w]]) == 0 for w in bad), "undefined-word-masked", f"{label}: {bad}")
        m.saw("reward")
        if bad:
            m.saw("nan")
        only = [w for w in kw if "x" in Q.mentions(w)]
        if want is None or not same or "/" in kw and single or "exp(-y)" in kw and not only:
            continue
        tol = 2e-3 if single else 1e-6
        ok = any(abs(r - w) <= tol * max(1, abs(w)) for w in want)
        m.check(ok, "reward", lambda: f"{label}: {r} instead of {want}")
        if "/" in kw and mode == "poles":
            m.saw("pole")
        m.saw("zero" if r == 0 else "positive" if r > 0 else "negative")
        m.distinct((label, rep))


@workload(quick=120, thorough=1000, timeout=60)
def malformed(m, rng, i):
    """sentences in which one word or operator is missing are worth nothing"""
    import torch
    from kd.model.eqgpt import continue_train_GPT_all as T
    id2word, w2i = vocab()
    variables = ["t", "x"]
    f, db = Field(rng, variables), points(rng, 30, variables, torch.float64)
    pool = [w for w, v in zip(id2word, T.get_mask_invalid(variables).tolist()) if v and w2i[w] > 5]
    words = [str(w) for w in rng.permutation(pool)[:int(rng.integers(2, 6))]]
    out = ["ut"]
    for w in words:
        out += [str(rng.choice(["+", "*", "/"])), w]
    if i % 2:                  # two operators, so that their number still fits
        for k in sorted(rng.choice(np.arange(1, len(out), 2), 2, replace=False), reverse=True):
            del out[k]
    else:
        k = int(rng.integers(1, len(out)))
        del out[k - 1 if k % 2 == 0 and len(out) - k <= 1 else k]
    for end in ([], ["E"]):
        with R.quiet(), np.errstate(all="ignore"):
            r = T.calculate_reward([w2i[w] for w in out + end], [f], [db], {}, T.get_mask_invalid(variables), variables, [6], [5])[0]
        m.check(float(r) == 0, "malformed-is-worthless", f"{' '.join(out + end)}: {r}")
    m.saw("malformed")
    m.distinct(("malformed", tuple(out)))


@workload(quick=14, thorough=60)
def masks(m, rng, i):
    """the words that may be sampled are those the variables define"""
    import torch
    from kd.model.eqgpt import continue_train_GPT_all as T
    from kd.model.eqgpt import calculate_terms as C
    id2word, w2i = vocab()
    variables = ORDERS[i % len(ORDERS)]
    mask = T.get_mask_invalid(list(variables)).tolist()
    net, db = Field(rng, variables), points(rng, 6, variables, torch.float64)
    for w, v in zip(id2word, mask):
        k = w2i[w]
        if k <= 5:
            if k in (1, 2, 3, 4):
                m.check(v == 1, "operators-allowed", f"{w} {variables}")
            continue
        if not Q.needs(w) <= set(variables):
            m.check(v == 0, "undefined-word-masked", f"{w} {variables}")
        elif v:
            got = C.calculate_terms(w, net, db, variables, 3, 2)
            m.check(got is not None and np.size(got) == 6, "allowed-word-defined", f"{w} {variables}")
        elif "t" not in Q.needs(w) and "t" not in w and "Div" not in w:
            m.check(False, "defined-word-masked", f"{w} {variables}")
    m.saw("mask")
    m.distinct(("mask", i))
