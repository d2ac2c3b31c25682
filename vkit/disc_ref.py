"""Independent reference semantics for the Discover solver (no code shared with kd)."""
import math, re
import numpy as np
from vkit import sga_ref as R
from vkit.sga_ref import fd1, fd2, quiet, smooth_field, axis_values

FD_NAMES = {"diff": (1, 1), "diff2": (2, 1), "diff3": (3, 1), "diff4": (4, 1),
            "Diff": (1, 2), "Diff2": (2, 2), "Diff_3": (1, 3), "Diff2_3": (2, 3)}
LAPS = {"lap": 2, "lap_3": 3}
BINARY = {"add", "sub", "mul", "div"}
UNARY = {"sin", "cos", "tan", "exp", "log", "sqrt", "n2", "n3", "n4", "n5", "neg", "abs", "tanh", "inv",
         "logabs", "expneg", "sigmoid"}


def base(name):
    return name[:-2] if name.endswith("_t") else name


def arity(name):
    n = base(name)
    if n in BINARY or n in FD_NAMES:
        return 2
    if n in UNARY or n in LAPS:
        return 1
    return 0


def is_diff(name):
    return base(name) in FD_NAMES


def parse(names):
    """pre-order list of names -> nested tuples; trailing names are an error"""
    pos = 0

    def rec():
        nonlocal pos
        if pos >= len(names):
            raise ValueError("incomplete expression")
        n = names[pos]
        pos += 1
        return (n,) + tuple(rec() for _ in range(arity(n)))
    t = rec()
    if pos != len(names):
        raise ValueError("trailing tokens")
    return t


def preorder(t):
    out = [t[0]]
    for c in t[1:]:
        out += preorder(c)
    return out


def text(t):
    return t[0] if len(t) == 1 else "%s(%s)" % (t[0], ",".join(text(c) for c in t[1:]))


def read_text(s):
    """inverse of text()"""
    toks = re.findall(r"[^(),\s]+|[(),]", s)
    pos = 0

    def rec():
        nonlocal pos
        n = toks[pos]
        pos += 1
        kids = []
        if pos < len(toks) and toks[pos] == "(":
            pos += 1
            kids.append(rec())
            while toks[pos] == ",":
                pos += 1
                kids.append(rec())
            if toks[pos] != ")":
                raise ValueError(s)
            pos += 1
        return (n,) + tuple(kids)
    t = rec()
    if pos != len(toks):
        raise ValueError(s)
    return t


def split_terms(t):
    if base(t[0]) in ("add", "sub"):
        return split_terms(t[1]) + split_terms(t[2])
    return [t]


# ---------------------------------------------------------------- derivatives
def pd1(a, d, axis):
    return (np.roll(a, -1, axis) - np.roll(a, 1, axis)) / (2 * d)


def pd2(a, d, axis):
    return (np.roll(a, -1, axis) - 2 * a + np.roll(a, 1, axis)) / d ** 2


def derivative(a, order, dim, k, d):
    """order-th derivative along the k-th spatial axis (0-based); 1-D data is (x, t), N-D is (t, x, y[, z])"""
    axis = 0 if dim == 1 else k + 1
    if dim == 2:
        return {1: pd1, 2: pd2}[order](a, d, axis)
    if order == 1:
        return fd1(a, d, axis)
    if order == 2:
        return fd2(a, d, axis)
    if order == 3:
        return fd1(fd2(a, d, axis), d, axis)
    return fd2(fd2(a, d, axis), d, axis)


class Flagged(Exception):
    """a floating point error was met"""


class Env:
    """values of the leaves, straight from the generated arrays"""

    def __init__(self, u, xs, params=None, dim=1, ut=None):
        self.u, self.dim = np.asarray(u, dtype=float), dim
        self.xs = [np.asarray(x, dtype=float).ravel() for x in xs]
        self.params = {k: np.asarray(v, dtype=float) for k, v in (params or {}).items()}
        self.ut = ut
        self.h = [x[1] - x[0] for x in self.xs]
        self.near = False       # a division/log came close to a pole

    def leaf(self, n):
        if n == "u1":
            return self.u
        if n in self.params:
            return self.params[n]
        if re.fullmatch(r"x\d+", n):
            k = int(n[1:]) - 1
            sh = [1] * self.u.ndim
            sh[0 if self.dim == 1 else k + 1] = -1
            return np.broadcast_to(self.xs[k].reshape(sh), self.u.shape)
        raise KeyError(n)

    def eval(self, t):
        n = base(t[0])
        if len(t) == 1:
            return self.leaf(t[0])
        if n in FD_NAMES:
            order, dim = FD_NAMES[n]
            if dim != self.dim or len(t[2]) != 1 or not re.fullmatch(r"x\d+", t[2][0]):
                raise ValueError("not a derivative with respect to an axis")
            k = int(t[2][0][1:]) - 1
            return derivative(self.eval(t[1]), order, dim, k, self.h[k])
        if n in LAPS:
            a = self.eval(t[1])
            if LAPS[n] != self.dim:
                raise ValueError("laplacian of another dimension")
            return sum(derivative(a, 2, self.dim, k, self.h[k]) for k in range(self.dim))
        a = [self.eval(c) for c in t[1:]]
        return self.apply(n, a)

    def apply(self, n, a):
        if n == "add": return a[0] + a[1]
        if n == "sub": return a[0] - a[1]
        if n == "mul": return a[0] * a[1]
        if n == "div":
            self.near |= bool(np.min(np.abs(a[1])) < 1e-9 * (1 + np.max(np.abs(a[1]))))
            return a[0] / a[1]
        if n == "inv":
            self.near |= bool(np.min(np.abs(a[0])) < 1e-9 * (1 + np.max(np.abs(a[0]))))
            return 1 / a[0]
        if n in ("n2", "n3", "n4", "n5"): return a[0] ** int(n[1])
        if n == "neg": return -a[0]
        if n == "log":
            self.near |= bool(np.min(a[0]) < 1e-12)
            return np.log(a[0])
        if n == "logabs": return np.log(np.abs(a[0]))
        if n == "sqrt":
            self.near |= bool(np.min(a[0]) < 1e-12)
            return np.sqrt(a[0])
        if n == "abs": return np.abs(a[0])
        if n == "expneg": return np.exp(-a[0])
        if n == "sigmoid": return 1 / (1 + np.exp(-a[0]))
        return getattr(np, n)(a[0])

    def terms(self, tree):
        """(columns, hit) - hit when a floating point error is met on the way"""
        hit = []
        with np.errstate(all="call"):
            old = np.geterrcall()
            np.seterrcall(lambda *x: hit.append(x[0]))
            try:
                cols = [np.array(self.eval(t), dtype=float).ravel() for t in split_terms(tree)]
            finally:
                np.seterrcall(old)
        return cols, hit


# ---------------------------------------------------------------- regulations
def depth_of(term):
    return math.ceil(math.log2(len(preorder(term))))


def unsafe_terms(tree, dim, max_depth=4):
    """reasons for which the solver documents that it refuses an expression"""
    out = []
    names = preorder(tree)
    if dim > 1:
        counts = [sum(n == "x%d" % (k + 1) for n in names) for k in range(dim)]
        if len(set(counts)) > 1:
            out.append("uneven use of the axes")
    for t in split_terms(tree):
        ns = preorder(t)
        if depth_of(t) > max_depth:
            out.append("depth")
        if any(is_diff(n) for n in ns) and "u1" not in ns:
            out.append("derivative without u")
        if "u1" not in ns:
            out.append("term without u")
    return out


# ---------------------------------------------------------------- regression
def lstsq(cols, y):
    A = np.stack(cols, axis=1)
    w, *_ = np.linalg.lstsq(A, y, rcond=None)
    s = np.linalg.svd(A / np.maximum(np.linalg.norm(A, axis=0), 1e-300), compute_uv=False)
    cond = s[0] / max(s[-1], 1e-300)
    return w, A, cond


def pde_reward(y, y_hat, n, alpha=0.01):
    y, y_hat = np.ravel(y), np.ravel(y_hat)
    return (1 - alpha * n) / (1 + math.sqrt(np.mean((y - y_hat) ** 2) / np.var(y)))


# ---------------------------------------------------------------- prefixes
class Prefix:
    """state of a partially written pre-order expression"""

    def __init__(self):
        self.names = []
        self.stack = []          # (name, children still missing, first child's name or None)

    def push(self, n):
        self.names.append(n)
        if self.stack:
            p = self.stack[-1]
            p[1] -= 1
            if p[2] is None:
                p[2] = n
        if arity(n):
            self.stack.append([n, arity(n), None])
        while self.stack and self.stack[-1][1] == 0:
            self.stack.pop()

    @property
    def complete(self):
        return bool(self.names) and not self.stack

    @property
    def dangling(self):
        return (1 if not self.names else 0) + sum(s[1] for s in self.stack)

    @property
    def parent(self):
        return self.stack[-1][0] if self.stack else None

    @property
    def sibling(self):
        return self.stack[-1][2] if self.stack else None

    @property
    def ancestors(self):
        return [s[0] for s in self.stack]


TRIG = {"sin", "cos", "tan"}
INVERSE = {"inv": "inv", "neg": "neg", "exp": "log", "log": "exp", "sqrt": "n2", "n2": "sqrt"}


def related(rel, p, targets, effectors):
    """names that a relational constraint forbids at prefix p"""
    par, sib = p.parent, p.sibling
    if rel == "child":
        return targets if par in effectors else set()
    if rel == "descendant":
        return targets if any(a in effectors for a in p.ancestors) else set()
    if rel == "sibling":
        out = set()
        if sib in effectors:
            out |= targets
        if sib in targets:
            out |= effectors
        return out
    if rel == "lchild":
        return targets if par in effectors and sib is None else set()
    if rel == "rchild":
        return targets if par in effectors and sib is not None else set()
    if rel == "uchild":
        if par in effectors and (arity(par) == 1 or sib in targets):
            return targets
        return set()
    raise KeyError(rel)


def forbidden(p, lib, prior):
    """names the enabled hard constraints forbid as the next token.
    lib: list of names; prior: the 'prior' section of the configuration"""
    names = set(lib)
    term = {n for n in names if arity(n) == 0}
    un = {n for n in names if arity(n) == 1}
    bi = {n for n in names if arity(n) == 2}
    inp = {n for n in names if re.fullmatch(r"x\d+", n)}
    diffs = {n for n in names if "diff" in n or "Diff" in n}
    out = set()

    def on(k):
        v = prior.get(k)
        return [a for a in (v if isinstance(v, list) else [v]) if isinstance(a, dict) and a.get("on")]
    L = len(p.names)
    for a in on("length"):
        mn, mx = a.get("min_"), a.get("max_")
        if L == 0:
            out |= term
        else:
            if mx is not None:
                left = mx - L
                if p.dangling >= left - 1:
                    out |= bi
                if p.dangling == left:
                    out |= un
            if mn is not None and L + 1 < mn and p.dangling == 1:
                out |= term
    if L == 0:
        return out
    for a in on("repeat"):
        toks = a["tokens"] if isinstance(a["tokens"], list) else a["tokens"].split(",")
        if all(t in names for t in toks) and sum(n in toks for n in p.names) >= a["max_"]:
            out |= set(toks)
    for a in on("inverse"):
        for tgt, eff in INVERSE.items():
            if tgt in names and eff in names:
                out |= related("child", p, {tgt}, {eff})
    for a in on("trig"):
        t = (TRIG & names) | diffs
        out |= related("descendant", p, t, t)
    for a in on("no_inputs"):
        if p.dangling == 1 and "u1" not in p.names:
            out |= {n for n in term if n != "u1"}
    for a in on("diff_left"):
        out |= related("lchild", p, inp, diffs)
    for a in on("diff_left_strict"):
        out |= related("lchild", p, names - diffs - {"u1"}, diffs)
    for a in on("diff_right"):
        out |= related("rchild", p, names - inp, diffs)
    for a in on("diff_descedent"):
        out |= related("descendant", p, {"add", "sub", "add_t", "sub_t"} & names, diffs)
    for a in on("diff_descedent2"):
        out |= related("descendant", p, {"n2", "n3", "n4", "mul", "div", "exp", "log", "sin", "cos"} & names, diffs)
    for a in on("relational"):
        sp = lambda v: set(v if isinstance(v, list) else v.split(","))
        tg, ef = sp(a["targets"]), sp(a["effectors"])
        if tg <= names and ef <= names:
            if a["relationship"] == "sibling" or not (ef & term):
                out |= related(a["relationship"], p, tg, ef)
    return out


# ---------------------------------------------------------------- problems
def gen_problem(rng, dim=None, params=None, n=None, scale=None):
    """(dataset, Env, meta) - a dataset of the given spatial dimension with arbitrary axis order"""
    from kd.dataset import PDEDataset
    dim = dim or int(rng.choice([1, 1, 2, 3]))
    if dim == 1:
        nx, nt = (int(v) for v in rng.integers(9, 22, 2)) if n is None else n
        x, t = axis_values(rng, nx), axis_values(rng, nt)
        G = np.meshgrid(x, t, indexing="ij")
        u = smooth_field(rng, G, offset=float(rng.choice([0.0, 1.7, 2.5])))
        if scale:
            u = u * scale
        P = {}
        if params or (params is None and rng.random() < 0.3):
            P = {str(rng.choice(["nu", "c", "kappa", "p1", "alpha"])): smooth_field(rng, G, offset=2.0)}
        kw = dict(param_fields=P) if P else {}
        ds = PDEDataset(equation_name="w", x=x, t=t, usol=u, **kw)
        ut = fd1(u, t[1] - t[0], 1)
        return ds, Env(u, [x], P, 1, ut), dict(dim=1, x=x, t=t, u=u)
    ax = ["x", "y", "z"][:dim]
    lo, hi = (6, 11) if dim == 2 else (5, 8)
    names = ax + ["t"]
    side = int(rng.integers(lo, hi)) if rng.random() < 0.4 else None
    coords = {a: axis_values(rng, side if side and a != "t" else int(rng.integers(lo, hi))) for a in names}
    order = [names[i] for i in rng.permutation(len(names))]
    G = np.meshgrid(*[coords[a] for a in order], indexing="ij")
    u = smooth_field(rng, G, offset=float(rng.choice([0.0, 2.0])))
    P = {}
    if params or (params is None and rng.random() < 0.3):
        P = {str(rng.choice(["nu", "c", "kappa"])): smooth_field(rng, G, offset=2.0)}
    field = str(rng.choice(["u", "v", "T"]))
    lhs = "t"
    kw = dict(param_fields=P) if P else {}
    ds = PDEDataset(equation_name="w", fields_data={field: u}, coords_1d=coords, axis_order=order,
                    target_field=field, lhs_axis=lhs, **kw)
    spatial = [a for a in order if a != lhs]
    perm = [order.index(lhs)] + [order.index(a) for a in spatial]
    U = np.transpose(u, perm)
    ut = fd1(U, coords[lhs][1] - coords[lhs][0], 0)
    Pp = {k: np.transpose(v, perm) for k, v in P.items()}
    return ds, Env(U, [coords[a] for a in spatial], Pp, dim, ut), dict(dim=dim, order=order, coords=coords, u=u, spatial=spatial)


DIFFS_OF = {1: ["diff", "diff2", "diff3"], 2: ["Diff", "Diff2", "lap"], 3: ["Diff_3", "Diff2_3", "lap_3"]}


def random_tree(rng, lib, dim, depth=3):
    """a random expression over the names in lib, derivatives taken with respect to axes"""
    term = [n for n in lib if arity(n) == 0]
    ops = [n for n in lib if arity(n)]
    inp = [n for n in term if re.fullmatch(r"x\d+", n)]
    if depth <= 0 or rng.random() < 0.15 or not ops:
        return ("u1",) if rng.random() < 0.6 else (str(rng.choice(term)),)
    n = str(rng.choice(ops))
    if is_diff(n):
        return (n, random_tree(rng, lib, dim, depth - 1), (str(rng.choice(inp)),))
    return (n,) + tuple(random_tree(rng, lib, dim, depth - 1) for _ in range(arity(n)))
