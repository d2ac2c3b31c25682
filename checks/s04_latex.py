from vkit import workload, Discard
import numpy as np
from vkit import sga_ref as R
from vkit import latexsem as L

PROPERTY = "S04"
RULE = "distinct (candidate term, notation) pairs whose LaTeX was read back and compared with the evaluated expression"
REQUIRE = {"term-compared": 150, "equation-read": 40}
ASSUME = ["LaTeX is read with standard typesetting rules; meaning compared at random points of concrete smooth fields",
          "terms whose value is singular or constant zero at the probe points are skipped"]

GREEK = {"nu": "nu", "kappa": "kappa", "rho": "rho"}


def concrete(prob, rng):
    """Concrete smooth fields as sympy expressions."""
    import sympy as sp
    ax = {a: sp.Symbol("s_" + a) for a in prob.axis_order}
    env = {"__axis__": ax}
    for a, s in ax.items():
        env[a] = s
    names = list(prob.fields) + list(prob.params)
    for n in names:
        e = sp.Rational(int(rng.integers(11, 29)), 10)
        for a, s in ax.items():
            e += sp.Rational(int(rng.integers(3, 17)), 10) * sp.sin(sp.Rational(int(rng.integers(5, 14)), 10) * s + int(rng.integers(0, 5)))
        s0 = sum(sp.Rational(int(rng.integers(2, 9)), 10) * s for s in ax.values())
        e += sp.cos(s0)
        env[n] = e
    return env


def truth(t, env, prob):
    import sympy as sp
    if isinstance(t, str):
        if t == "0":
            return sp.Integer(0)
        if t in env:
            return env[t]
        f, a = t.rsplit("_", 1)
        return sp.diff(env[f], env["__axis__"][a])
    op = t[0]
    if op in ("d", "d^2"):
        return sp.diff(truth(t[1], env, prob), env["__axis__"][t[2]], 1 if op == "d" else 2)
    a = [truth(c, env, prob) for c in t[1:]]
    if op == "+":
        return a[0] + a[1]
    if op == "-":
        return a[0] - a[1]
    if op == "*":
        return a[0] * a[1]
    if op == "/":
        if a[1] == 0:
            raise Discard()
        return a[0] / a[1]
    return a[0] ** (2 if op == "^2" else 3)


def points(env, rng, k=3):
    return [{s: float(rng.uniform(0.2, 1.9)) for s in env["__axis__"].values()} for _ in range(k)]


def num(e, p):
    try:
        v = complex(e.evalf(30, subs=p))
        return v.real if abs(v.imag) < 1e-12 and np.isfinite(v.real) else None
    except Exception:
        return None


def same(e1, e2, pts):
    """True/False, or None when undecidable at these points."""
    seen = 0
    for p in pts:
        a, b = num(e1, p), num(e2, p)
        if a is None or abs(a) > 1e12:
            continue
        if b is None:
            return False
        seen += 1
        if abs(a - b) > 1e-7 * max(1e-6, abs(a), abs(b)):
            return False
    return True if seen else None


def compare(m, latex_ast, t, env, prob, rng, what, note):
    try:
        tv = truth(t, env, prob)
    except (Discard, ZeroDivisionError, RecursionError):
        return
    if tv.has(__import__("sympy").zoo, __import__("sympy").nan):
        return
    try:
        lv = L.to_sympy(latex_ast, env)
        ok = same(tv, lv, points(env, rng))
        msg = ""
    except (L.LatexError, KeyError) as e:
        ok, msg = False, str(e)
    if ok is None:
        return
    m.saw("term-compared")
    m.distinct((note, R.show(t)))
    m.check(ok, "latex-denotes-term", f"[{note}] {R.show(t)} rendered as {what} {msg}")


def chained(ctx, rng, depth):
    """a deep but narrow expression, often combining an operand with itself"""
    leaves = [str(v[0]) for v in ctx.VARS if str(v[0]) != "0"]
    axes = [str(v[0]) for v in ctx.den]
    def leaf():
        return leaves[int(rng.integers(len(leaves)))]
    t = leaf() if rng.random() < 0.4 else (str(rng.choice(["+", "-"])), leaf(), leaf())
    for _ in range(depth - 1):
        op = str(rng.choice(["+", "-", "*", "*", "/", "d", "d^2", "^2", "^2", "^3"]))
        if op in ("^2", "^3"):
            t = (op, t)
        elif op in ("d", "d^2"):
            t = (op, t, axes[int(rng.integers(len(axes)))])
        else:
            k = rng.random()
            o = t if k < 0.25 and len(R.show(t)) < 40 else leaf()
            if 0.25 <= k < 0.6:
                o = (str(rng.choice(["+", "-"])), o, leaf())
            if 0.25 <= k < 0.4:
                o = (str(rng.choice(["^2", "^3"])), o)
            t = (op, t, o) if rng.random() < 0.6 else (op, o, t)
    return t if not isinstance(t, str) else ("^2", t)


def planted(ctx, t, Tree):
    """the repository's tree object for a given expression"""
    from kd.model.sga.sgapde.tree import Node, tree2str_merge, dfs
    import copy
    full = {str(v[0]): v for v in list(ctx.VARS) + list(ctx.OPS)}
    T = Tree(ctx, 2, 1.0)
    T.max_depth = R.depth_of(t)
    T.tree = [[] for _ in range(T.max_depth)]
    level = [(t, None)]
    for d in range(T.max_depth):
        nxt = []
        for e, parent in level:
            v = full[e if isinstance(e, str) else e[0]]
            n = Node(depth=d, idx=len(T.tree[d]), parent_idx=parent, name=v[0], full=v, child_num=int(v[1]),
                     child_st=None if isinstance(e, str) else len(nxt), var=v[2])
            if not isinstance(e, str):
                nxt += [(c, n.idx) for c in e[1:]]
            T.tree[d].append(n)
        level = nxt
    out = []
    dfs(out, T.tree, depth=0, idx=0)
    T.preorder = " ".join(out)
    T.inorder = tree2str_merge(copy.deepcopy(T.tree))
    return T


@workload(quick=320, thorough=3200)
def random_terms(m, rng, i):
    """Random trees in random equations: sign, coefficient, term and LHS all read back."""
    from kd.model.sga.sgapde.tree import Tree
    from kd.model.sga.sgapde.equation import SGAEquationDetails, SGAEquationTerm, sga_equation_to_latex
    ds, prob, kind = R.gen_problem(rng, [None, "legacy", "multi", "param", "xyt", "names", "lhs"][i % 7])
    ctx = R.make_context(ds)
    env = concrete(prob, rng)
    terms = []
    for _ in range(int(rng.integers(1, 4))):
        if rng.random() < 0.4:
            T = planted(ctx, chained(ctx, rng, int(rng.integers(3, 7))), Tree)
        else:
            T = Tree(ctx, int(rng.choice([2, 3, 3, 4, 5])), float(rng.choice([0.4, 0.6, 0.8])))
        c = float(rng.choice([1.0, -1.0, 0.5, -2.25, 3e-4, -1.234567e6, rng.normal()]))
        terms.append(SGAEquationTerm(label=T.inorder, source="generated", coefficient=c, tree=T))
    if rng.random() < 0.5:
        terms.insert(0, SGAEquationTerm(label=prob.target, source="default", coefficient=float(rng.choice([1, -1, 2.5])), tree=None))
    if rng.random() < 0.2:
        terms.append(SGAEquationTerm(label="u", source="default", coefficient=0.0, tree=None))
    lhs = f"{prob.target}_{prob.lhs}"
    det = SGAEquationDetails(lhs=lhs, terms=tuple(terms))
    read_equation(m, det, prob, env, rng, lambda inc, nt: sga_equation_to_latex(det, include_coefficients=inc, notation=nt))


def read_equation(m, det, prob, env, rng, render):
    live = [t for t in det.terms if t.coefficient != 0.0]
    for notation in ("subscript", "leibniz"):
        for inc in (True, False):
            s = render(inc, notation)
            try:
                lhs, rhs = L.parse_equation(s, prob.axis_order)
            except L.LatexError as e:
                m.check(False, "latex-valid", f"{s}: {e}; terms {[R.show(R.tree_of(t.tree)) for t in live if t.tree is not None]}")
                continue
            m.check(True, "latex-valid")
            m.saw("equation-read")
            m.check(lhs == ("diff", ("sym", prob.target), prob.lhs, 1), "lhs-label", f"{s}: LHS should be d{prob.target}/d{prob.lhs}")
            if not live:
                m.check(rhs == [(1, ("num", 0.0))], "empty-equation", s)
                continue
            if not m.check(len(rhs) == len(live), "term-count", f"{s}: {len(rhs)} terms, expected {len(live)}"):
                continue
            for (sg, ast), t in zip(rhs, live):
                m.check(sg == (-1 if t.coefficient < 0 else 1), "sign", f"{s}: sign of {t.label} coefficient {t.coefficient}")
                coef, body = 1.0, ast
                if inc:
                    coef, body = split_coef(ast)
                    m.check(abs(coef - abs(t.coefficient)) <= 1.1e-5 * abs(t.coefficient), "coefficient",
                            f"{s}: {coef} for {t.coefficient}")
                tree = R.tree_of(t.tree) if t.tree is not None else t.label
                compare(m, body, tree, env, prob, rng, s, notation)


def split_coef(ast):
    """leading numeric factor of a product"""
    if ast[0] == "num":                      # a term may itself start with the leaf 0
        return (ast[1], ("num", 1.0)) if ast[1] != 0.0 else (1.0, ast)
    if ast[0] == "mul":
        if ast[1][0] == "num" and ast[1][1] != 0.0:
            return ast[1][1], ast[2]
        c, b = split_coef(ast[1])
        return c, ("mul", b, ast[2])
    return 1.0, ast


def split(s):
    """a printed candidate's terms: what its top-level pluses separate"""
    out, deep = [""], 0
    for ch in s:
        deep += (ch == "(") - (ch == ")")
        if ch == "+" and deep == 0:
            out.append("")
        else:
            out[-1] += ch
    return [o.strip() for o in out]


@workload(quick=60, thorough=600)
def fitted_models(m, rng, i):
    """What a fitted estimator prints denotes the terms it actually selected."""
    from kd.model.kd_sga import KD_SGA
    ds, prob, kind = R.gen_problem(rng, scale=float(10.0 ** rng.uniform(-1, 3)) if rng.random() < 0.6 else 1.0)
    with R.quiet():
        est = KD_SGA(sga_run=2, num=4, depth=int(rng.integers(2, 5)), width=3, seed=int(rng.integers(1000))).fit_dataset(ds)
    det = est.best_equation_details_
    m.check(det is not None, "details-available", "no equation details after a fit")
    if det is None:
        return
    env = concrete(prob, rng)
    read_equation(m, det, prob, env, rng, lambda inc, nt: est.equation_latex(include_coefficients=inc, notation=nt))
    shown, size = 0.0, 0.0
    for t in det.terms:
        e = R.tree_of(t.tree) if t.tree is not None else t.label
        f = np.asarray(prob.eval(e), float)
        shown, size = shown + t.coefficient * f, size + abs(t.coefficient) * np.abs(f)
        if isinstance(e, tuple) and (prob.sensitive(e) or prob.noisy(e)):
            shown = None
            break
    if shown is not None and det.predicted_rhs is not None:
        # whatever is left out of the printed equation carries a coefficient below the display threshold
        left = np.asarray(det.predicted_rhs, float) - shown
        terms = [R.parse_inorder(s) for s in split(est.best_pde_)]
        allow = sum((np.abs(np.asarray(prob.eval(t), float)) for t in terms + [prob.target]), 0.0)
        if not any(prob.sensitive(t) or prob.noisy(t) for t in terms) and np.all(np.isfinite(allow)):
            m.saw("nothing-hidden")
            m.check(np.all(np.abs(left) <= 1.01e-5 * allow + 1e-8 * size + 1e-10 * np.abs(prob.ut).max()), "prints-every-fitted-term",
                    f"{kind}: {est.equation_latex()} leaves {np.abs(left).max()} of {est.best_pde_}")
    m.check(est.equation_structure_latex() == est.equation_latex(include_coefficients=False), "structure-form", "")
