"""G01: the equation DLGA reports is the one it fitted, in the user's own operator names."""
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import dlga_ref as D

PROPERTY = "G01"
RULE = "distinct (operator list, chromosome, left-hand side) equations recomputed from independently differentiated features"
REQUIRE = {"fit": 15, "refit": 15, "survivor": 60, "latex-read": 30, "derivative-column": 60, "synthetic": 10}
ASSUME = ["coefficients are compared only when the fitted direction is well separated; float32 tolerance on network derivatives"]


def judge(m, model, ops, cols, tag, latex=None):
    """cols: independent feature columns. Every ranked survivor is recomputed."""
    n = len(next(iter(cols.values())))
    for k in range(min(len(model.Fitness), 6)):
        chrom, coef, fit, name = model.Chrom[k], np.asarray(model.coef[k], dtype=float), float(model.Fitness[k]), model.name[k]
        if not chrom:
            continue
        m.saw("survivor")
        F = np.stack([np.prod([cols[ops[g]] for g in mod], axis=0) for mod in chrom], 1)
        m.check(coef.shape == (len(chrom), 1), "one-coefficient-per-term", f"{coef.shape} for {chrom}")
        m.check(name in ("u_t", "u_tt"), "lhs-known", name)
        if coef.shape != (len(chrom), 1) or name not in ("u_t", "u_tt"):
            continue
        lhs = cols[name]
        res = lhs - F @ coef[:, 0]
        pen = model.epi * sum(len(x) for x in chrom)
        mse = float(np.mean(res ** 2))
        size = float(np.mean(lhs ** 2)) + float(np.mean((np.abs(F) @ np.abs(coef[:, 0])) ** 2))
        m.check(abs(fit - (mse + pen)) <= 1e-4 * mse + 3e-4 * np.sqrt(mse * size) + 1e-7 * size + 1e-12 + 1e-9 * pen,
                "fitness-is-mse-plus-penalty", f"{tag}: {ops} {chrom} {name} reported {fit} recomputed {mse}+{pen}")
        want, gap, v0 = D.tls(lhs, F)
        other = cols["u_tt" if name == "u_t" else "u_t"]
        if gap > 1e-3 and v0 > 1e-3:
            m.saw("coefficients-compared")
            sc = np.abs(want).max() + 1e-12
            m.close(coef[:, 0], want, "coefficients-are-total-least-squares", rtol=0, atol=2e-2 * sc,
                    msg=f"{tag}: {ops} {chrom} {name}")
            w2, gap2, v2 = D.tls(other, F)
            if gap2 > 1e-3 and v2 > 1e-3:
                alt = float(np.mean((other - F @ w2) ** 2))
                m.check(mse <= alt * 1.05 + 1e-6 * size, "better-lhs-chosen", f"{tag}: {name} {mse} other {alt}")
        m.distinct((tuple(ops), str(chrom), name))
    # rendered equation of the winner
    eq = model.convert_chrom_to_eq(model.Chrom[0], model.name[0], model.coef[0])
    check_text(m, eq, model.Chrom[0], model.coef[0], model.name[0], ops)
    if latex is not None:
        check_latex(m, latex, model.Chrom[0], model.coef[0], model.name[0], ops)


def check_text(m, eq, chrom, coef, name, ops):
    left, right = eq.split("=")
    m.check(left == name, "text-lhs", eq)
    txt = right.replace("e-", "E~").replace("-", "+-").replace("E~", "e-")
    terms = [x for x in txt.split("+") if x]
    m.check(len(terms) == len(chrom), "text-term-count", f"{eq} for {chrom}")
    for t, mod, c in zip(terms, chrom, np.asarray(coef)[:, 0]):
        p = t.split("*")
        m.check(abs(float(p[0]) - c) <= 5.1e-5, "text-coefficient", f"{eq} {c}")
        m.check(sorted(p[1:]) == sorted(ops[g] for g in mod), "text-term", f"{eq} module {mod} of {ops}")


def check_latex(m, latex, chrom, coef, name, ops):
    m.saw("latex-read")
    try:
        lhs, terms = D.read_latex(latex)
    except ValueError as e:
        m.check(False, "latex-readable", f"{latex}: {e}")
        return
    m.check(lhs == name, "latex-lhs", f"{latex} but lhs {name}")
    m.check(len(terms) == len(chrom), "latex-term-count", f"{latex} for {chrom}")
    for (c, mono), mod, want in zip(terms, chrom, np.asarray(coef)[:, 0]):
        tol = 1.2e-4 if abs(abs(want) - 1) < 1e-4 else 5.1e-5
        m.check(abs(c - want) <= tol, "latex-coefficient", f"{latex}: {c} vs {want}")
        m.check(mono == D.monomial(mod, ops), "latex-term", f"{latex}: {mono} but module {mod} of {ops} is {D.monomial(mod, ops)}")


def fit_and_judge(m, rng, model, ops, shape=(None, None), raw=0.3, tag=""):
    ds, x, t, u, kind = D.make_dataset(rng, nx=shape[0], nt=shape[1])
    with R.quiet():
        if rng.random() < raw:
            XX, TT = np.meshgrid(x, t, indexing="ij")
            X = np.column_stack([XX.ravel(), TT.ravel()])
            model.fit(X.copy(), u.reshape(-1, 1).copy())
        else:
            model.fit_dataset(ds)
            X = ds.mesh()
    m.saw("fit")
    ref = D.net_derivatives(model.Net, X)
    cols = {}
    for name in D.OPS:
        have = np.asarray(model.metadata[name]).reshape(-1)
        sc = np.abs(ref[name]).max() + 1e-6
        m.saw("derivative-column")
        m.close(have, ref[name], "feature-is-network-derivative", rtol=0, atol=2e-3 * sc + 2e-5, msg=f"{name} ({kind}{tag})")
        cols[name] = have.astype(float)
    m.close(np.asarray(model.predict(X)).reshape(-1), ref["u"], "predict-is-network", rtol=1e-4, atol=1e-5)
    judge(m, model, ops, cols, kind + tag, model.eq_latex)


@workload(quick=32, thorough=400, timeout=200)
def fits(m, rng, i):
    """real fits on small data; network derivatives recomputed by stencils"""
    D.seed_all(int(rng.integers(1 << 30)))
    model, ops = D.make_model(rng)
    fit_and_judge(m, rng, model, ops)


@workload(quick=20, thorough=200, timeout=300)
def refits(m, rng, i):
    """one model fitted several times: on other data of the same or another size, with the same or other operators"""
    D.seed_all(int(rng.integers(1 << 30)))
    model, ops = D.make_model(rng, gens=3)
    shape = (int(rng.integers(6, 10)), int(rng.integers(6, 10)))
    for k in range(int(rng.integers(2, 4))):
        if k and rng.random() < 0.5:
            ops = [str(o) for o in rng.permutation(D.OPS)[:rng.integers(1, 6)]]
            if rng.random() < 0.5:
                model.set_params(operators=list(ops))
            else:
                model.operators = list(ops)
        if k and rng.random() < 0.3:
            model.set_params(epi=float(rng.choice([0.0, 0.02, 0.2])))
        fit_and_judge(m, rng, model, ops, shape if rng.random() < 0.75 else (None, None), tag=f" refit {k}")
        m.saw("refit", int(k > 0))


BASE_COLS = ["u", "u_x", "u_xx", "u_xxx", "u_t", "u_tt"]


@workload(quick=16, thorough=200, timeout=200)
def base_class_fits(m, rng, i):
    """the expert-level DLGA class, whose gene table is fixed"""
    from kd.model import DLGA
    D.seed_all(int(rng.integers(1 << 30)))
    model = DLGA(epi=float(rng.choice([0.0, 1e-3, 0.01, 0.1])), input_dim=2, max_iter=int(rng.integers(3, 25)))
    model.pop_size, model.n_generations = int(rng.integers(4, 25)), int(rng.integers(1, 9))
    ds, x, t, u, kind = D.make_dataset(rng, order="legacy")
    X = ds.mesh()
    Xc, yc = X.copy(), u.reshape(-1, 1).copy()
    with R.quiet():
        model.fit(Xc, yc)
    m.check(np.array_equal(Xc, X) and np.array_equal(yc[:, 0], u.reshape(-1)), "base-fit-leaves-inputs", "")
    m.saw("fit")
    ref = D.net_derivatives(model.Net, X)
    have = model.Theta.detach().double().numpy()
    m.check(have.shape == (X.shape[0], 6), "base-library-columns", str(have.shape))
    cols = {}
    for k, name in enumerate(BASE_COLS):
        sc = np.abs(ref[name]).max() + 1e-6
        m.saw("derivative-column")
        m.close(have[:, k], ref[name], "feature-is-network-derivative", rtol=0, atol=2e-3 * sc + 2e-5, msg=name)
        cols[name] = have[:, k]
    ops = BASE_COLS
    n = len(model.Fitness)
    m.check(n == model.pop_size // 2 and len(model.Chrom) == model.pop_size, "base-population", f"{n} {len(model.Chrom)} {model.pop_size}")
    model.convert_chrom_to_eq, orig = None, model.convert_chrom_to_eq

    def text(chrom, name, coef):
        with R.quiet():
            s = orig(chrom, name, coef)
        left, right = s.split("=")
        for a, b in (("uxxx", "u_xxx"), ("uxx", "u_xx"), ("ux", "u_x"), ("utt", "u_tt"), ("ut", "u_t")):
            right = "+".join("*".join(b if f == a else f for f in trm.split("*")) for trm in right.split("+"))
        return left + "=" + right
    model.convert_chrom_to_eq = text
    judge(m, model, ops, cols, "base", model.eq_latex)


def analytic_net(parts):
    import torch

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.p = torch.nn.Parameter(torch.tensor(parts, dtype=torch.float32))

        def forward(self, X):
            out = 0
            for a, k, w, g, ph in self.p:
                out = out + a * torch.exp(g * X[:, 1:2]) * torch.sin(k * X[:, 0:1] + w * X[:, 1:2] + ph)
            return out
    return Net()


def analytic_cols(parts, X):
    x, t = X[:, 0], X[:, 1]
    c = {k: 0.0 for k in D.OPS}
    for a, k, w, g, ph in parts:
        z = a * np.exp((g + 1j * w) * t) * np.exp(1j * (k * x + ph))
        lam, kap = g + 1j * w, 1j * k
        for name, f in (("u", 1), ("u_x", kap), ("u_t", lam), ("u_xx", kap ** 2), ("u_xxx", kap ** 3), ("u_tt", lam ** 2)):
            c[name] = c[name] + (z * f).imag
    return c


@workload(quick=64, thorough=900, timeout=200)
def synthetic(m, rng, i):
    """analytic surrogate in place of the trained network: features known in closed form"""
    import os, torch
    D.seed_all(int(rng.integers(1 << 30)))
    model, ops = D.make_model(rng, pop=int(rng.integers(8, 40)), gens=int(rng.integers(2, 12)))
    n = int(rng.integers(1, 4))
    parts = [[float(rng.uniform(0.5, 1.5)), float(rng.uniform(0.5, 2)), float(rng.uniform(-1.5, 1.5)),
              float(rng.uniform(-0.5, 0.2)), float(rng.uniform(0, 6))] for _ in range(n)]
    net = analytic_net(parts)

    def train(X, y):
        os.makedirs("model_save", exist_ok=True)
        model.best_epoch = 500
        torch.save(net.state_dict(), "model_save/Net_500.pkl")
        return net, 500
    model.train_NN = train
    X = rng.uniform(-2, 2, (int(rng.integers(20, 60)), 2)).astype(np.float32).astype(float)
    cols = analytic_cols(np.float32(parts).astype(float), X)
    with R.quiet():
        model.fit(X.copy(), cols["u"].reshape(-1, 1).copy())
    m.saw("synthetic")
    for name in D.OPS:
        have = np.asarray(model.metadata[name]).reshape(-1)
        m.close(have, cols[name], "feature-value", rtol=0, atol=3e-5 * (np.abs(cols[name]).max() + 1e-3), msg=name)
    judge(m, model, ops, cols, "synthetic", model.eq_latex)


@workload(quick=40, thorough=400)
def rendering(m, rng, i):
    """rendering alone, over arbitrary chromosomes"""
    from kd.viz.dlga_eq2latex import dlga_eq2latex
    for _ in range(10):
        model, ops = D.make_model(rng)
        k = int(rng.integers(1, 6))
        chrom = [sorted(int(g) for g in rng.integers(0, len(ops), int(rng.integers(1, 6)))) for _ in range(k)]
        coef = np.array([[float(rng.choice([1, -1, 1.0000001, 0.5, -2.25, 123.456, 1e-3, -0.99999, 0.04995, 1.0004, -0.9993, 2e-4, -6e-5])) if rng.random() < 0.4
                          else float(rng.normal() * 10.0 ** rng.integers(-3, 3))] for _ in range(k)])
        name = ["u_t", "u_tt"][rng.integers(2)]
        with R.quiet():
            s = dlga_eq2latex(chromosome=chrom, coefficients=coef, lhs_name_str=name, operator_names=ops)
        check_latex(m, s, chrom, coef, name, ops)
        check_text(m, model.convert_chrom_to_eq(chrom, name, coef), chrom, coef, name, ops)
        m.distinct((tuple(ops), str(chrom), name))


@workload(quick=8, thorough=40)
def bad_operators(m, rng, i):
    from kd.model.kd_dlga import KD_DLGA
    bad = ["ux", "u_y", "u_xxxx", "v", "", "u*u_x", "u_tx", "U"][i % 8]
    ops = list(rng.permutation(D.OPS)[:3])
    ops.insert(int(rng.integers(0, 4)), bad)

    def go():
        D.seed_all(1)
        mod = KD_DLGA(operators=[str(o) for o in ops], epi=0.01, input_dim=2, verbose=False, max_iter=2)
        mod.pop_size, mod.n_generations = 6, 2
        ds, *_ = D.make_dataset(rng)
        with R.quiet():
            mod.fit_dataset(ds)
        return mod.eq_latex
    m.raises((ValueError, KeyError), go, "unknown-operator-refused", f"{ops}")
