"""Helpers and independent reference semantics for DLGA."""
import copy, random, re
import numpy as np
from vkit import sga_ref as R

OPS = ["u", "u_x", "u_t", "u_xx", "u_xxx", "u_tt"]


def make_model(rng, ops=None, **kw):
    from kd.model.kd_dlga import KD_DLGA
    if ops is None:
        k = int(rng.integers(1, 6))
        ops = list(rng.permutation(OPS)[:k])
    ops = [str(o) for o in ops]
    m = KD_DLGA(operators=ops, epi=float(rng.choice([0.0, 1e-3, 0.01, 0.1])), input_dim=2, verbose=False,
                max_iter=int(kw.pop("max_iter", rng.integers(3, 25))))
    m.pop_size = int(kw.pop("pop", rng.integers(4, 25)))
    m.n_generations = int(kw.pop("gens", rng.integers(1, 9)))
    for k, v in kw.items():
        setattr(m, k, v)
    return m, ops


def make_dataset(rng, order=None, nx=None, nt=None):
    from kd.dataset import PDEDataset
    nx = nx or int(rng.integers(6, 12))
    nt = nt or int(rng.integers(6, 12))
    x, t = R.axis_values(rng, nx), R.axis_values(rng, nt)
    u = R.smooth_field(rng, list(np.meshgrid(x, t, indexing="ij")))
    kind = order or ["legacy", "xt", "tx"][rng.integers(3)]
    if kind == "legacy":
        ds = PDEDataset(equation_name="r", x=x.copy(), t=t.copy(), usol=u.copy())
    else:
        f = u if kind == "xt" else u.T
        ds = PDEDataset(equation_name="r", fields_data={"u": f.copy()}, coords_1d={"x": x.copy(), "t": t.copy()},
                        axis_order=["x", "t"] if kind == "xt" else ["t", "x"])
    return ds, x, t, u, kind


def net_value(net, X):
    """the network in double precision"""
    import torch
    n = copy.deepcopy(net).double()
    with torch.no_grad():
        return n(torch.from_numpy(np.asarray(X, dtype=float))).numpy().reshape(-1)


_K = np.arange(-5, 6)
_W = {}


def _weights(d):
    if d not in _W:
        A = np.vander(_K.astype(float), len(_K), increasing=True).T
        b = np.zeros(len(_K))
        b[d] = float(np.prod(np.arange(1, d + 1)))
        _W[d] = np.linalg.solve(A, b)
    return _W[d]


def net_derivatives(net, X, h=0.03):
    """derivatives of the network by wide double-precision stencils; columns: x first, t second"""
    X = np.asarray(X, dtype=np.float32).astype(float)
    out = {"u": net_value(net, X)}
    for ax, nm in ((0, "x"), (1, "t")):
        vals = []
        for k in _K:
            Z = X.copy()
            Z[:, ax] += k * h
            vals.append(net_value(net, Z))
        vals = np.stack(vals)
        for d in (1, 2, 3):
            out["u_" + nm * d] = _weights(d) @ vals / h ** d
    return out


def tls(lhs, F):
    """total least squares coefficients and the separation of the two smallest singular values"""
    A = np.concatenate([lhs.reshape(-1, 1), F], 1)
    U, s, V = np.linalg.svd(A, full_matrices=False)
    v = V[-1]
    gap = (s[-2] - s[-1]) / (s[0] + 1e-300)
    return -v[1:] / (v[0] if v[0] != 0 else np.nan), gap, abs(v[0])


FACT = re.compile(r"^(u(?:_(?:\{[xt]+\}|[xt]))?)(?:\^\{(\d+)\}|\^(\d))?")


def read_latex(s):
    """'$lhs = ...$' -> (lhs, [(coef, {factor: power})]); raises ValueError on anything else"""
    s = s.strip()
    if not (s.startswith("$") and s.endswith("$")):
        raise ValueError("not in math mode: " + s)
    s = s.strip("$")
    left, right = s.split("=")

    def name(tok):
        return tok.replace("{", "").replace("}", "")

    def factor(txt):
        g = FACT.match(txt)
        if not g:
            raise ValueError("cannot read factor at: " + txt)
        return name(g.group(1)), int(g.group(2) or g.group(3) or 1), txt[g.end():].strip()
    n, p, rest = factor(left.strip())
    if rest or p != 1:
        raise ValueError("left-hand side: " + left)
    terms = []
    txt = right.strip()
    first = True
    while txt:
        sign = 1.0
        if txt[0] in "+-":
            sign = -1.0 if txt[0] == "-" else 1.0
            txt = txt[1:].strip()
        elif not first:
            raise ValueError("terms not separated: " + txt)
        first = False
        g = re.match(r"^\d+(\.\d*)?", txt)
        c, had = 1.0, False
        if g:
            c, had = float(g.group(0)), True
            txt = txt[g.end():].strip()
        mono = {}
        while txt and txt[0] not in "+-":
            nm, p, txt = factor(txt)
            mono[nm] = mono.get(nm, 0) + p
        if not had and not mono:
            raise ValueError("empty term in " + s)
        terms.append((sign * c, mono))
    return n, terms


def monomial(module, ops):
    out = {}
    for g in module:
        out[ops[g]] = out.get(ops[g], 0) + 1
    return out


def seed_all(s):
    import torch
    np.random.seed(s)
    random.seed(s)
    torch.manual_seed(s)
