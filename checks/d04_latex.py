"""D04: the LaTeX Discover prints denotes the program it was asked to print."""
import re
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D
from vkit import latexsem as L

PROPERTY = "D04"
RULE = "distinct (program, notation, expansion) triples whose LaTeX was read back and compared with the program"
REQUIRE = {"term-compared": 400, "equation-read": 150, "derivative-of-compound": 60, "dim:2": 30, "dim:3": 30, "parameter": 30, "drawn": 10}
ASSUME = ["meaning is compared at random points of concrete smooth fields",
          "coefficients are printed to four decimals; x1, x2, x3 are printed as x, y, z"]

OPS1 = ["add", "sub", "mul", "div", "diff", "diff2", "diff3", "diff4", "n2", "n3", "n4", "n5", "sin", "cos", "exp", "log",
        "sqrt", "neg", "abs", "tanh", "inv", "logabs", "expneg", "sigmoid", "tan"]
PARAMS = ["nu", "c", "kappa", "p1", "alpha", "visc", "k", "E", "I", "S", "beta", "gamma", "rho_w", "Re", "D", "k2", "lambda", "pi"]


def fields(rng, dim, params, axes):
    import sympy as sp
    ax = {a: sp.Symbol("s_" + a, real=True) for a in axes[:dim]}
    env = {"__axis__": ax, **ax}
    env["axes"] = list(axes[:dim])
    for n in ["u"] + list(params):
        e = sp.Rational(int(rng.integers(31, 49)), 10)
        for a, s in ax.items():
            e += sp.Rational(int(rng.integers(3, 9)), 10) * sp.sin(sp.Rational(int(rng.integers(5, 14)), 10) * s + int(rng.integers(0, 5)))
        e += sp.cos(sum(sp.Rational(int(rng.integers(2, 9)), 10) * s for s in ax.values())) / 2
        env[n] = e
    return env


def truth(t, env):
    import sympy as sp
    e = truth_of(t, env)
    if e.has(sp.zoo, sp.nan, sp.oo):
        raise ZeroDivisionError(D.text(t))
    return e


def truth_of(t, env):
    import sympy as sp
    n = D.base(t[0])
    if len(t) == 1:
        return env[env["axes"][int(n[1:]) - 1]] if re.fullmatch(r"x[123]", n) else env["u" if n == "u1" else n]
    if n in D.FD_NAMES:
        return sp.diff(truth(t[1], env), env["__axis__"][env["axes"][int(t[2][0][1:]) - 1]], D.FD_NAMES[n][0])
    if n in D.LAPS:
        a = truth(t[1], env)
        return sum(sp.diff(a, s, 2) for s in env["__axis__"].values())
    a = [truth(c, env) for c in t[1:]]
    f = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "div": lambda: a[0] / a[1],
         "inv": lambda: 1 / a[0], "neg": lambda: -a[0], "abs": lambda: sp.Abs(a[0]), "logabs": lambda: sp.log(sp.Abs(a[0])),
         "expneg": lambda: sp.exp(-a[0]), "sigmoid": lambda: 1 / (1 + sp.exp(-a[0]))}
    if n in f:
        return f[n]()
    if n in ("n2", "n3", "n4", "n5"):
        return a[0] ** int(n[1])
    return getattr(sp, n)(a[0])


def values(e, pts):
    import sympy as sp
    out = []
    for p in pts:
        try:
            v = complex(sp.N(e.subs(p), 25))
            out.append(v.real if abs(v.imag) < 1e-12 * (1 + abs(v.real)) and np.isfinite(v.real) else np.nan)
        except Exception:
            out.append(np.nan)
    return np.array(out, dtype=float)


def unleibniz(s):
    """u1(x1,x2,x3), x_{1}... as printed in the other notation"""
    s = re.sub(r"\{\\left\(x_\{1\},x_\{2\},x_\{3\} \\right\)\}", "", s)
    s = re.sub(r"\\operatorname\{u_\{1\}\}|\\operatorname\{u\}_\{1\}|u_\{1\}", "u", s)
    for k, a in zip("123", "xyz"):
        s = s.replace("x_{%s}" % k, a)
    return re.sub(r"\\frac\{d(\^\{\d+\})?\}\{((?:d [xyz](?:\^\{\d+\})?)+)\}",
                  lambda k: "\\frac{\\partial%s}{%s}" % (k.group(1) or "", k.group(2).replace("d ", "\\partial ")), s)


def split_coef(ast):
    if ast[0] == "num":
        return ast[1], ("num", 1.0)
    if ast[0] == "mul":
        if ast[1][0] == "num":
            return ast[1][1], ast[2]
        c, b = split_coef(ast[1])
        return c, ("mul", b, ast[2])
    return 1.0, ast


def judge(m, rng, p, dim, params, lhs_axis=None, axes=("x", "y", "z"), draw=None):
    from kd.viz.discover_eq2latex import discover_program_to_latex
    tree = D.parse([t.name for t in p.traversal])
    terms = D.split_terms(tree)
    w = [float(c) for c in np.ravel(p.w)]
    env = fields(rng, dim, params, axes)
    for n in params:
        env[n.replace("1", "_1").replace("2", "_2")] = env[n]
    pts = [{s: float(rng.uniform(0.2, 1.9)) for s in env["__axis__"].values()} for _ in range(3)]
    try:
        want = [values(truth(t, env), pts) for t in terms]
    except ZeroDivisionError:
        return
    want = want + [np.ones(3)] * (len(w) - len(terms))
    if not all(np.all(np.isfinite(v)) and np.max(np.abs(v)) < 1e12 for v in want):
        return                                  # somewhere undefined: nothing to compare
    m.saw(f"dim:{dim}")
    modes = [("subscript", True), ("leibniz", True), ("subscript", False), ("leibniz", False)]
    if draw:
        modes = modes[:1]
    for notation, expand in modes:
        kw = {} if lhs_axis is None else {"lhs_axis": lhs_axis}
        label = f"[{notation}{'' if expand else ', unexpanded'}] {D.text(tree)} w={w}"
        try:
            with R.quiet():
                s = draw() if draw else discover_program_to_latex(p, notation=notation, expand_derivatives=expand, **kw)
        except Exception as e:
            m.check(False, "latex-produced", f"{label}: {type(e).__name__} {e}")
            continue
        m.check(s.startswith("$") and s.endswith("$"), "math-mode", s)
        if "\\operatorname{atan}" in s:     # |sqrt(x)| differentiated over the complex numbers: not read here
            m.saw("complex-form")
            continue
        body = s.strip("$")
        if notation == "leibniz":
            body = unleibniz(body)
        try:
            lhs, rhs = L.parse_equation(body, list(axes[:dim]) + [lhs_axis or "t"], funcs=("abs", "sign", "re", "im"), strict=True)
        except (L.LatexError, KeyError) as e:
            m.check(False, "latex-valid", f"{label}: {s}: {e}")
            continue
        m.saw("equation-read")
        m.check(lhs == ("diff", ("sym", "u"), lhs_axis or "t", 1), "lhs-label", s)
        if not m.check(len(rhs) == len(w), "term-count", f"{label}: {s}"):
            continue
        for (sg, ast), c, v, t in zip(rhs, w, want, terms + [("1",)]):
            coef, rest = split_coef(ast)
            try:
                b = values(L.to_sympy(rest, env), pts)
            except (L.LatexError, KeyError) as e:
                m.check(False, "latex-denotes-term", f"{label}: {s}: {D.text(t)}: {e}")
                continue
            tiny = 1e-9
            m.saw("term-compared")
            if any(D.is_diff(x[0]) and len(x[1]) > 1 for x in subtrees(t)):
                m.saw("derivative-of-compound")
            if any(n in params for n in D.preorder(t)):
                m.saw("parameter")
            if np.max(np.abs(v)) < tiny:        # the term vanishes identically
                m.check(coef == 0 or np.max(np.abs(b)) < tiny, "latex-denotes-term", f"{label}: {s}: {D.text(t)} is zero")
                continue
            if not m.check(np.all(np.isfinite(b)) and np.max(np.abs(b)) > 0, "latex-denotes-term", f"{label}: {s}: {D.text(t)} -> {b}"):
                continue
            k = int(np.argmax(np.abs(b)))
            f = v[k] / b[k]                     # term = f * printed body
            m.check(np.all(np.abs(v - f * b) <= 1e-7 * np.max(np.abs(v))), "latex-denotes-term", f"{label}: {s}: {D.text(t)}: {v} vs {b}")
            m.check(abs(sg * coef - c * f) <= 0.51e-4 + 1.1e-5 * abs(c * f), "coefficient", f"{label}: {s}: {sg * coef} for {c * f}")
        m.distinct((D.text(tree), notation, expand))


def subtrees(t):
    yield t
    for c in t[1:]:
        yield from subtrees(c)


def setup(rng, dim, ops, params=None, **task):
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import Program
    ds, env, meta = D.gen_problem(rng, dim)
    if params is not None:
        import kd.dataset as kd_ds
        G = np.meshgrid(meta["x"], meta["t"], indexing="ij")
        ds = kd_ds.PDEDataset(equation_name="w", x=meta["x"], t=meta["t"], usol=meta["u"],
                              param_fields={n: R.smooth_field(rng, G, offset=2.0) for n in params})
    b = [o for o in ops if D.arity(o) == 2]
    mod = KD_Discover(n_iterations=1, n_samples_per_batch=20, binary_operators=b, unary_operators=[o for o in ops if o not in b],
                      out_path=None, seed=int(rng.integers(1 << 20)), config_out={"task": task} if task else None)
    with R.quiet():
        mod.import_dataset(ds)
    names = list(Program.library.names)
    return mod, names, [n for n in names if D.arity(n) == 0 and n != "u1" and not re.fullmatch(r"x\d", n)]


class Fake:
    """a program whose coefficients are set by the harness"""

    def __init__(self, names, w):
        from kd.model.discover.program import from_str_tokens
        with R.quiet():
            p = from_str_tokens(list(names))
        self.traversal, self.STRidge, self.w = p.traversal, p.STRidge, w


def coef(rng):
    return float(rng.choice([1.0, -1.0, 0.5, -2.25, 3e-4, -0.0123456, 123.4567, -1.00002, 1e-4, rng.normal(), rng.normal() * 30]))


def programs(m, rng, names, params, dim, n, depth=3, const=False):
    for _ in range(n):
        tree = D.random_tree(rng, names, dim, int(rng.integers(1, depth + 1)))
        for _ in range(int(rng.integers(0, 3))):
            op = "sub" if ("sub" in names and rng.random() < 0.4) else "add"
            tree = (op, tree, D.random_tree(rng, names, dim, int(rng.integers(0, depth + 1))))
        if len(D.preorder(tree)) > 24:
            continue
        k = len(D.split_terms(tree)) + int(const)
        judge(m, rng, Fake(D.preorder(tree), [coef(rng) for _ in range(k)]), dim, params, lhs_axis=[None, "t"][rng.integers(2)])


@workload(quick=60, thorough=700)
def one_dimensional(m, rng, i):
    ops = list(dict.fromkeys(["add", "diff"] + [str(o) for o in rng.choice(OPS1, int(rng.integers(3, 9)), replace=False)]))
    par = [str(x) for x in rng.choice(PARAMS, int(rng.integers(1, 3)), replace=False)] if i % 2 else []
    mod, names, params = setup(rng, 1, ops, par)
    programs(m, rng, names, params, 1, 5)


@workload(quick=40, thorough=500)
def several_dimensions(m, rng, i):
    dim = 2 + i % 2
    ops = list(dict.fromkeys(["add", "mul", D.DIFFS_OF[dim][0]] + [str(o) for o in rng.choice(
        D.DIFFS_OF[dim] + ["sub", "div", "n2", "n3", "sin", "exp"], int(rng.integers(3, 7)), replace=False)]))
    mod, names, params = setup(rng, dim, ops)
    programs(m, rng, names, params, dim, 5)


@workload(quick=16, thorough=160)
def evaluated(m, rng, i):
    """programs with the coefficients their evaluation gave them, constants included"""
    from kd.model.discover.program import from_str_tokens
    const = bool(i % 2)
    mod, names, params = setup(rng, 1, ["add", "sub", "mul", "n2", "diff", "diff2", "cos"], [], **({"add_const": True} if const else {}))
    done = 0
    for _ in range(60):
        tree = D.random_tree(rng, names, 1, 2)
        if rng.random() < 0.6:
            tree = ("add", tree, D.random_tree(rng, names, 1, 2))
        with R.quiet():
            p = from_str_tokens(D.preorder(tree))
            r = p.r_ridge
        if p.invalid:
            continue
        if const and len(np.ravel(p.w)) > len(D.split_terms(tree)):
            m.saw("constant-term")
        judge(m, rng, p, 1, params)
        done += 1
        if done == 4:
            break


@workload(quick=12, thorough=120)
def wide(m, rng, i):
    """derivatives of products with many factors, whose expansion has many parts; too few or too many coefficients"""
    from kd.viz.discover_eq2latex import discover_program_to_latex
    par = [str(x) for x in rng.choice(PARAMS, 2, replace=False)]
    mod, names, params = setup(rng, 1, ["add", "sub", "mul", "div", "diff", "sin", "n2", "exp"], par)
    for _ in range(3):
        f = [("u1",), ("x1",), ("sin", ("u1",)), ("diff", ("u1",), ("x1",)), ("exp", ("x1",)), ("n2", ("u1",))] + [(p,) for p in params]
        f = [f[int(k)] for k in rng.permutation(len(f))[:int(rng.integers(3, 6))]]
        t = f[0]
        for g in f[1:]:
            t = (str(rng.choice(["mul", "mul", "div"])), t, g)
        t = ("diff", t, ("x1",))
        for _ in range(int(rng.integers(0, 3))):
            t = (str(rng.choice(["add", "sub"])), t, D.random_tree(rng, names, 1, 1))
        k = len(D.split_terms(t))
        judge(m, rng, Fake(D.preorder(t), [coef(rng) for _ in range(k)]), 1, params)
        for n in (k - 1, k + 2):
            with R.quiet():
                s = discover_program_to_latex(Fake(D.preorder(t), [coef(rng) for _ in range(n)]))
            m.check("Invalid program" in s, "inconsistent-program-refused", f"{n} coefficients for {k} terms: {s}")


@workload(quick=24, thorough=200)
def drawn(m, rng, i):
    """the equation kd.viz draws for a searched model, whatever the dataset calls its axes"""
    import kd.viz as viz
    from kd.dataset import PDEDataset
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import Program
    dim = 2 + i % 2
    names = [str(a) for a in rng.permutation(["x", "y", "z", "t", "r", "s", "phi", "xi", "h_1"])[:dim + 1]]
    coords = {a: R.axis_values(rng, int(rng.integers(6, 9))) for a in names}
    G = np.meshgrid(*[coords[a] for a in names], indexing="ij")
    lhs = str(rng.choice(names))
    ds = PDEDataset(equation_name="w", fields_data={"u": R.smooth_field(rng, G, offset=2.0)}, coords_1d=coords, axis_order=names,
                    target_field="u", lhs_axis=lhs)
    mod = KD_Discover(n_iterations=1, n_samples_per_batch=20, binary_operators=[], unary_operators=[], out_path=None, seed=i)
    with R.quiet():
        mod.import_dataset(ds)
        mod.train(n_epochs=2, verbose=False)
    p = mod.searcher.best_p
    if p is None or p.invalid:
        raise Discard()
    spatial = [a for a in names if a != lhs]
    params = [n for n in Program.library.names if D.arity(n) == 0 and n != "u1" and not n[1:].isdigit()]

    def draw():
        res = viz.render_equation(mod, show_info=False)
        m.check(not res.warnings, "equation-drawn", str(res.warnings))
        m.saw("drawn")
        return res.metadata["latex"]
    judge(m, rng, p, dim, params, lhs_axis=lhs, axes=spatial, draw=draw)
