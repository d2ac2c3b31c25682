"""Independent reference semantics for the SGA solver (no code shared with kd)."""
import contextlib, io, math
import numpy as np


def fd1(a, d, axis):
    a = np.moveaxis(np.asarray(a, dtype=float), axis, 0)
    o = np.empty_like(a)
    o[1:-1] = (a[2:] - a[:-2]) / (2 * d)
    o[0] = (-1.5 * a[0] + 2 * a[1] - 0.5 * a[2]) / d
    o[-1] = (1.5 * a[-1] - 2 * a[-2] + 0.5 * a[-3]) / d
    return np.moveaxis(o, 0, axis)


def fd2(a, d, axis):
    a = np.moveaxis(np.asarray(a, dtype=float), axis, 0)
    o = np.empty_like(a)
    o[1:-1] = (a[2:] - 2 * a[1:-1] + a[:-2]) / d ** 2
    o[0] = (2 * a[0] - 5 * a[1] + 4 * a[2] - a[3]) / d ** 2
    o[-1] = (2 * a[-1] - 5 * a[-2] + 4 * a[-3] - a[-4]) / d ** 2
    return np.moveaxis(o, 0, axis)


ARITY = {"+": 2, "-": 2, "*": 2, "/": 2, "d": 2, "d^2": 2, "^2": 1, "^3": 1}


class Problem:
    """Ground data of one SGA problem, straight from the generated arrays."""

    def __init__(self, fields, coords, axis_order, target, lhs, params=None):
        self.fields = {k: np.asarray(v, dtype=float) for k, v in fields.items()}
        self.coords = {k: np.asarray(v, dtype=float) for k, v in coords.items()}
        self.axis_order, self.target, self.lhs = list(axis_order), target, lhs
        self.params = {k: np.asarray(v, dtype=float) for k, v in (params or {}).items()}
        self.idx = {a: i for i, a in enumerate(self.axis_order)}
        self.delta = {a: float(c[1] - c[0]) for a, c in self.coords.items()}
        self.shape = self.fields[target].shape
        self.rhs_axes = [a for a in self.axis_order if a != lhs]
        env = dict(self.fields)
        for a in self.rhs_axes:
            sh = [1] * len(self.shape)
            sh[self.idx[a]] = -1
            env[a] = np.broadcast_to(self.coords[a].reshape(sh), self.shape)
        env.update(self.params)
        env["0"] = np.zeros(self.shape)
        for f, v in self.fields.items():
            for a in self.rhs_axes:
                env[f"{f}_{a}"] = fd1(v, self.delta[a], self.idx[a])
        self.env = env
        self.ut = fd1(self.fields[target], self.delta[lhs], self.idx[lhs])

    def apply(self, op, args, right_name=None):
        if op == "+":
            return args[0] + args[1]
        if op == "-":
            return args[0] - args[1]
        if op == "*":
            return args[0] * args[1]
        if op == "/":
            d = args[1]
            if np.allclose(d, 0.0, atol=1e-10):
                d = d + 1e-6
            while np.any(d == 0):
                d = d + 1e-10
            return args[0] / d
        if op == "^2":
            return args[0] ** 2
        if op == "^3":
            return args[0] ** 3
        if op == "d":
            return fd1(args[0], self.delta[right_name], self.idx[right_name])
        if op == "d^2":
            return fd2(args[0], self.delta[right_name], self.idx[right_name])
        raise KeyError(op)

    def eval(self, t):
        """t = nested tuple ('op', child, child) or leaf name."""
        if isinstance(t, str):
            return self.env[t]
        op = t[0]
        if op in ("d", "d^2"):
            return self.apply(op, [self.eval(t[1])], t[2])
        return self.apply(op, [self.eval(c) for c in t[1:]])

    def sensitive(self, t):
        """True if some division has a near-zero divisor (result dominated by the guard)."""
        if isinstance(t, str):
            return False
        if t[0] == "/":
            d = np.abs(self.eval(t[2]))
            # a stored array is known exactly, so isolated zeros in it are too
            if t[2] in self.fields or t[2] in self.coords or t[2] in self.params:
                if 1e-12 < d.max() < 1e-8:
                    return True
            elif d.min() <= 1e-7 * max(1e-300, d.max()) or d.max() < 1e-9:
                return True
        return any(self.sensitive(c) for c in t[1:] if not (t[0] in ("d", "d^2") and c is t[2]))


    def _error(self, t):
        """(values, bound on their rounding error)"""
        eps = 2e-16
        if isinstance(t, str):
            v = self.env[t]
            if "_" in t and t not in self.fields and t not in self.params:
                f, a = t.rsplit("_", 1)
                return v, 4 * eps * np.max(np.abs(self.fields[f])) / abs(self.delta[a])
            return v, 2 * eps * np.max(np.abs(v))
        op = t[0]
        top = lambda q: np.max(np.abs(q))
        if op in ("d", "d^2"):
            a, e = self._error(t[1])
            v = self.apply(op, [a], t[2])
            k, h = (4, abs(self.delta[t[2]])) if op == "d" else (12, self.delta[t[2]] ** 2)
            return v, k * (e + eps * top(a)) / h
        if len(t) == 2:
            a, e = self._error(t[1])
            v = self.apply(op, [a])
            return v, (3 if op == "^3" else 2) * e * top(a) ** (2 if op == "^3" else 1) + 2 * eps * top(v)
        a, e = self._error(t[1])
        b, f = self._error(t[2])
        v = self.apply(op, [a, b])
        if op == "*":
            return v, e * top(b) + f * top(a) + eps * top(v)
        if op == "/":
            lo = max(np.min(np.abs(b)), 1e-300)
            return v, e / lo + f * top(v) / lo + eps * top(v)
        return v, e + f + eps * top(v)

    def noisy(self, t):
        """True if rounding decides the term's values"""
        with np.errstate(all="ignore"):
            v, e = self._error(t)
            rms = np.sqrt(np.mean(np.asarray(v, dtype=float) ** 2))
        return bool(rms > 0 and not e <= 1e-8 * rms)


def parse_preorder(tokens):
    toks = tokens.split() if isinstance(tokens, str) else list(tokens)
    pos = [0]

    def rec():
        tok = toks[pos[0]]
        pos[0] += 1
        if tok in ARITY:
            return (tok,) + tuple(rec() for _ in range(ARITY[tok]))
        return tok
    r = rec()
    if pos[0] != len(toks):
        raise ValueError("trailing tokens: " + " ".join(toks[pos[0]:]))
    return r


def parse_inorder(s):
    """Fully parenthesised infix as documented: '(a op b)' / '( op a)' / leaf."""
    toks = s.replace("(", " ( ").replace(")", " ) ").split()
    pos = [0]

    def rec():
        tok = toks[pos[0]]
        pos[0] += 1
        if tok != "(":
            return tok
        if toks[pos[0]] in ("^2", "^3"):
            op = toks[pos[0]]
            pos[0] += 1
            a = rec()
            assert toks[pos[0]] == ")", s
            pos[0] += 1
            return (op, a)
        a = rec()
        op = toks[pos[0]]
        pos[0] += 1
        b = rec()
        assert toks[pos[0]] == ")", s
        pos[0] += 1
        return (op, a, b)
    r = rec()
    if pos[0] != len(toks):
        raise ValueError("trailing in " + s)
    return r


def tree_of(T):
    """Nested tuple of a repository Tree by its child links."""
    nodes = T.tree

    def rec(d, i):
        n = nodes[d][i]
        if n.child_num == 0:
            return n.name
        return (n.name,) + tuple(rec(d + 1, n.child_st + j) for j in range(n.child_num))
    return rec(0, 0)


def depth_of(t):
    return 1 if isinstance(t, str) else 1 + max(depth_of(c) for c in t[1:])


def show(t):
    return t if isinstance(t, str) else "(" + " ".join([t[0]] + [show(c) for c in t[1:]]) + ")"


# ---------------------------------------------------------------------------
# workload generation
# ---------------------------------------------------------------------------

def smooth_field(rng, grids, offset=None):
    out = np.zeros(grids[0].shape)
    for _ in range(rng.integers(2, 5)):
        ph = rng.uniform(0, 6.28)
        arg = ph
        for g in grids:
            arg = arg + rng.uniform(0.3, 1.7) * g
        out = out + rng.uniform(0.3, 1.0) * np.sin(arg)
    dec = sum(rng.uniform(-0.15, 0.15) * g for g in grids)
    out = out * np.exp(np.clip(dec, -2, 2))
    return out + (rng.uniform(-0.5, 0.5) if offset is None else offset)


def axis_values(rng, n):
    lo = rng.choice([0.0, -1.0, rng.uniform(-3, 3), 1.0])
    h = rng.uniform(0.05, 0.4)
    x = lo + h * np.arange(n)
    return x[::-1].copy() if rng.random() < 0.15 else x


def gen_problem(rng, kind=None, scale=1.0):
    """Returns (PDEDataset, Problem, estimator kwargs)."""
    from kd.dataset import PDEDataset
    kinds = ["legacy", "legacy", "xt", "tx", "xyt", "perm3", "multi", "param", "names", "lhs", "param_legacy"]
    kind = kind or kinds[rng.integers(len(kinds))]
    if kind in ("legacy", "param_legacy"):
        x, t = axis_values(rng, rng.integers(7, 16)), axis_values(rng, rng.integers(6, 13))
        X, T = np.meshgrid(x, t, indexing="ij")
        u = smooth_field(rng, [X, T]) * scale
        params = {"nu": smooth_field(rng, [X, T], 2.0)} if kind == "param_legacy" else None
        ds = PDEDataset(equation_name="rand", x=x, t=t, usol=u.copy(), param_fields=params)
        return ds, Problem({"u": u}, {"x": x, "t": t}, ["x", "t"], "u", "t", params), kind
    lhs, target = "t", "u"
    params = None
    if kind == "xt":
        order = ["x", "t"]
    elif kind == "tx":
        order = ["t", "x"]
    elif kind == "xyt":
        order = ["x", "y", "t"]
    elif kind == "perm3":
        order = list(rng.permutation(["x", "y", "t"]))
    elif kind == "names":
        order = [["r", "t"], ["r", "z", "t"], ["t", "lon"]][rng.integers(3)]
    elif kind == "lhs":
        order, lhs = [(["x", "y"], "y"), (["x", "t"], "x"), (["x", "y", "t"], "y")][rng.integers(3)]
    else:
        order = ["x", "t"] if rng.random() < 0.6 else ["x", "y", "t"]
    order = [str(a) for a in order]
    nmax = 14 if len(order) == 2 else 9
    coords = {a: axis_values(rng, int(rng.integers(5, nmax))) for a in order}
    grids = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    fields = {"u": smooth_field(rng, grids) * scale}
    if kind == "multi":
        fields["v"] = smooth_field(rng, grids) * scale
        if rng.random() < 0.5:
            target = "v"
    if kind == "param":
        params = {"nu": smooth_field(rng, grids, 2.0), "kappa": np.full(grids[0].shape, 1.5)}
    ds = PDEDataset(equation_name="rand", fields_data={k: v.copy() for k, v in fields.items()},
                    coords_1d={k: v.copy() for k, v in coords.items()}, axis_order=list(order),
                    target_field=target, lhs_axis=lhs, param_fields=params)
    return ds, Problem(fields, coords, order, target, lhs, params), kind


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def make_context(ds, attrs=None, **cfg):
    from kd.model.sga.adapter import SGADataAdapter
    from kd.model.sga.sgapde.config import SolverConfig
    from kd.model.sga.sgapde.context import ProblemContext
    kw = SGADataAdapter(ds).to_solver_kwargs()
    kw["problem_name"] = "custom_dataset"
    kw.update(cfg)
    with quiet():
        conf = SolverConfig(**kw)
        for k, v in (attrs or {}).items():
            setattr(conf, k, v)
        return ProblemContext(conf)


def aic_of(mse, w, ratio=1.0):
    k = int(np.sum(np.abs(np.asarray(w)) != 0))
    with np.errstate(divide="ignore"):
        return ratio * 2 * k + 2 * np.log(mse)
