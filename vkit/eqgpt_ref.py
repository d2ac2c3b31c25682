"""Independent reference semantics for EqGPT's words, sentences and rewards (no code shared with kd)."""
import numpy as np

OPS = {"+": 2, "*": 3, "/": 4}


class Env:
    """u and coordinates of one case, with differentiation"""

    def __init__(self, net, database, variables):
        self.net, self.db, self.vars = net, database, list(variables)
        self.u = net(database).reshape(-1)

    def D(self, f, axes):
        import torch
        for a in axes:
            if not f.requires_grad:
                return torch.zeros_like(f)
            g = torch.autograd.grad(f.sum(), self.db, create_graph=True, allow_unused=True)[0]
            f = torch.zeros_like(f) if g is None else g[:, self.vars.index(a)]
        return f

    def X(self, a):
        return self.db[:, self.vars.index(a)]

    def lap(self, f):
        return sum(self.D(f, a + a) for a in self.vars if a != "t")


def _words():
    import torch
    W = {"u": lambda e: e.u, "u^2": lambda e: e.u * e.u, "u^3": lambda e: e.u * e.u * e.u}
    for a in ["t", "x", "xx", "xxt", "xt", "tt", "xxxx", "xxtt", "xxx", "yy", "xxxxx", "y", "xy", "z", "zz", "yyt", "yyy", "yyyy", "xxyy", "zzzz",
              "yyzz", "xxzz"]:
        W["u" + a] = lambda e, a=a: e.D(e.u, a)
    for a, p in [("t", 2), ("t", 3), ("x", 2), ("y", 2)]:
        W[f"u{a}^{p}"] = lambda e, a=a, p=p: e.D(e.u, a) ** p
    for p, ax in [(2, "xx"), (3, "x"), (3, "xx"), (4, "xx")]:
        W[f"(u^{p}){ax}"] = lambda e, p=p, ax=ax: e.D(e.u ** p, ax)
    for ax in ["x", "xx", "t"]:
        W[f"(uux){ax}"] = lambda e, ax=ax: e.D(e.u * e.D(e.u, "x"), ax)
    W["(1/u)xx"] = lambda e: e.D(1 / e.u, "xx")
    W["(u^-2*ux)x"] = lambda e: e.D(e.D(e.u, "x") / e.u ** 2, "x")
    W["(u(u^2)xx)xx"] = lambda e: e.D(e.u * e.D(e.u ** 2, "xx"), "xx")
    W["sqrt(u)"] = lambda e: torch.sqrt(e.u.abs())
    W["sin(u)"], W["sinh(u)"] = (lambda e: torch.sin(e.u)), (lambda e: torch.sinh(e.u))
    W["Laplace(u)"], W["Laplace(utt)"] = (lambda e: e.lap(e.u)), (lambda e: e.lap(e.D(e.u, "tt")))
    W["BiLaplace(u)"] = lambda e: e.lap(e.lap(e.u))
    W["Div(u)"] = lambda e: sum(e.D(e.u, a) for a in e.vars if a != "t")
    for a in "xyt":
        W[a] = lambda e, a=a: e.X(a)
    W["x^2"], W["y^2"], W["x^4"] = (lambda e: e.X("x") ** 2), (lambda e: e.X("y") ** 2), (lambda e: e.X("x") ** 4)
    W["(x+y)"] = lambda e: e.X("x") + e.X("y")
    W["exp(x)"], W["exp(-y)"] = (lambda e: torch.exp(e.X("x"))), (lambda e: torch.exp(-e.X("y")))
    W["sinx"], W["sint"] = (lambda e: torch.sin(e.X("x"))), (lambda e: torch.sin(e.X("t")))
    W["sqrt(x)"] = lambda e: torch.sqrt(e.X("x"))
    W["(uxx+ux/x)^2"] = lambda e: (e.D(e.u, "xx") + e.D(e.u, "x") / e.X("x")) ** 2
    return W


WORDS = _words()


def needs(word):
    """the variables a word involves beyond u itself"""
    s = word.replace("sqrt", "").replace("exp", "").replace("sin", "").replace("env", "").replace("Laplace", "").replace("Div", "")
    v = {a for a in "txyz" if a in s}
    if "Laplace" in word or "Div" in word:
        v |= {"x", "y"}
    return v


def mentions(word):
    return set("txyz") if "Laplace" in word or "Div" in word else needs(word)


def value(word, env):
    return WORDS[word](env).detach().cpu().numpy().reshape(-1)


def split(words):
    """[[(op, word), …], …] of the words of an equation (op is '*' or '/'), None if it is malformed"""
    if len(words) % 2 == 0 or any(w not in OPS for w in words[1::2]) or any(w in OPS or w in ("E", "S", "<pad>") for w in words[::2]):
        return None
    out = [[("*", words[0])]]
    for op, w in zip(words[1::2], words[2::2]):
        if op == "+":
            out.append([("*", w)])
        else:
            out[-1].append((op, w))
    return out


def excluded(words):
    s = set(words)
    return any(g <= s for g in ({"u", "sin(u)"}, {"u", "sinh(u)"}, {"sin(u)", "sinh(u)"}, {"u", "u^2", "u^3"}, {"x", "sinx"}))


def columns(terms, env):
    cache = {}
    cols = []
    with np.errstate(all="ignore"):
        for t in terms:
            c = 1
            for op, w in t:
                if w not in cache:
                    cache[w] = value(w, env)
                c = c * cache[w] if op == "*" else c / cache[w]
            cols.append(c)
    return np.stack(cols, 1), {w for w, v in cache.items() if np.isnan(v).any()}


def score(A, loose=1e-4, worst=1e-9):
    """possible rewards of one case: {reward…} (several when columns are nearly equal), or None if it cannot be judged"""
    keep = []
    for j in range(A.shape[1]):
        if not any(np.array_equal(A[:, j], A[:, k], equal_nan=False) for k in keep):
            keep.append(j)
    A = A[:, keep].astype(float)
    A = A[~np.isinf(A).any(axis=1)]
    if np.isnan(A).any() or len(A) == 0:
        return {0.0}
    b = A[:, 0]
    sst = ((b - b.mean()) ** 2).sum()
    if sst == 0:
        return {0.0}
    if sst < 1e-10 * (b ** 2).sum():
        return None
    B = A[:, 1:]
    with np.errstate(all="ignore"):
        scale = np.abs(B).max(axis=0) if B.shape[1] else np.ones(0)
        if not np.all(np.isfinite(scale)):
            return None
        B = B / np.where(scale > 0, scale, 1)
        if B.shape[1]:
            U = B[:, [j for j in range(B.shape[1]) if np.any(B[:, j])]]
            sv = np.linalg.svd(U / np.linalg.norm(U, axis=0), compute_uv=False) if U.shape[1] else np.ones(1)
            if sv.min() < worst * sv.max() or len(U) <= U.shape[1]:
                return None
            q = np.linalg.lstsq(B, b / np.sqrt(sst), rcond=1e-13)[0]
            sse = ((B @ q - b / np.sqrt(sst)) ** 2).sum()
        else:
            sse = (b ** 2).sum() / sst
    r2 = 1 - sse
    near = sum(any(np.allclose(A[:, j], A[:, k], rtol=loose, atol=loose * np.abs(A[:, k]).max()) for k in range(j)) for j in range(A.shape[1]))
    return {(1 - 0.02 * np.log10(A.shape[1] - d)) * r2 for d in range(near + 1)}


def reward(words, envs, variables, worst=1e-9):
    """(possible rewards, words with NaN) of an equation given as words without S and E"""
    terms = split(words)
    if terms is None:
        return {0.0}, set()
    total, bad, skip = {0.0}, set(), False
    for e in envs:
        A, nan = columns(terms, e)
        bad |= nan
        s = score(A, worst=worst)
        if s is None:
            skip = True
        else:
            total = {a + b for a in total for b in s}
    if excluded(words) or any(not any(v in mentions(w) for w in words) for v in variables):
        return {0.0}, bad
    return (None if skip else {t / len(envs) for t in total}), bad
