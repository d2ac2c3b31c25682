"""D03: Discover only samples complete expressions that obey every constraint that is switched on."""
import copy
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "D03"
RULE = "distinct (operators, constraint set, sampled pre-order expression) triples followed token by token"
REQUIRE = {"expression": 500, "token": 4000, "masked-choice": 10000, "step-statistic": 200, "soft": 2000, "at-once": 40}
ASSUME = ["the shift of the soft length prior before its location is not judged",
          "the observation after an expression is complete is not judged"]

POOL = ["add", "sub", "mul", "div", "diff", "diff2", "diff3", "n2", "n3", "sin", "cos", "exp", "log", "sqrt", "neg", "inv", "abs", "n4"]
OFF = {k: {"on": False} for k in ("length", "repeat", "inverse", "trig", "const", "no_inputs", "uniform_arity", "soft_length",
                                   "diff_left", "diff_right", "diff_descedent")}


def random_prior(rng, ops, names):
    pr = copy.deepcopy(OFF)
    on = lambda p=0.5: bool(rng.random() < p)
    mx = int(rng.integers(6, 26))
    mn = int(rng.integers(1, 6)) if on(0.7) else None
    pr["length"] = {"min_": mn, "max_": mx, "on": True}
    if on():
        tok = [str(t) for t in rng.choice(names, int(rng.integers(1, 3)), replace=False)]
        pr["repeat"] = {"tokens": tok if on() else ",".join(tok), "min_": None, "max_": int(rng.integers(1, 5)), "on": True}
        if all(D.arity(t) == 0 for t in tok) or "u1" in tok or "x1" in tok:
            pr["repeat"]["on"] = False          # could forbid every way to finish
    for k in ("inverse", "trig", "soft_length", "diff_left", "diff_descedent", "diff_descedent2"):
        if on():
            pr[k] = {"on": True}
    if pr["soft_length"]["on"]:
        pr["soft_length"].update(loc=int(rng.integers(4, 12)), scale=int(rng.integers(2, 8)))
    if on(0.7):
        pr["diff_right"] = {"on": True}
    if on(0.3) and pr["diff_right"]["on"]:
        pr["diff_left_strict"] = {"on": True}
    if on(0.2) and not pr["diff_right"]["on"]:
        pr["no_inputs"] = {"on": True}
    if on(0.3):
        pr["uniform_arity"] = {"on": True}
    rel = []
    fun = [o for o in ops]
    for _ in range(int(rng.integers(0, 3))):
        kind = str(rng.choice(["child", "descendant", "sibling", "lchild", "rchild", "uchild"]))
        tg = [str(rng.choice(fun))]
        if rng.random() < 0.4:
            tg.append(str(rng.choice(fun)))
        ef = [str(rng.choice([o for o in fun if D.arity(o) == 2 or kind in ("child", "descendant")] or fun))]
        if kind == "uchild":
            ef = [o for o in fun if D.arity(o) == 2][:1] or ef
        rel.append({"targets": ",".join(sorted(set(tg))), "effectors": ",".join(ef), "relationship": kind, "on": True})
    if rel:
        pr["relational"] = rel if len(rel) > 1 else rel[0]
    return pr


def make(rng, dim=1, prior=None, ops=None, obs=None, **over):
    from kd.model.kd_discover import KD_Discover
    from kd.model.discover.program import Program
    ds, env, _ = D.gen_problem(rng, dim, params=bool(rng.random() < 0.3))
    cfg = {"controller": {"max_length": 64, "num_units": int(rng.choice([8, 16, 32])), **over.pop("controller", {})}}
    if prior is not None:
        cfg["prior"] = prior
    if obs is not None:
        cfg["state_manager"] = obs
    cfg.update(over)
    b = [o for o in ops or [] if D.arity(o) == 2]
    mod = KD_Discover(n_iterations=1, n_samples_per_batch=16, binary_operators=b, unary_operators=[o for o in ops or [] if o not in b],
                      out_path=None, seed=int(rng.integers(1 << 20)), config_out=cfg)
    with R.quiet():
        mod.import_dataset(ds)
    return mod, env, list(Program.library.names)


def shake(rng, mod, scale):
    """move the controller away from its flat start so that its recurrent state matters"""
    import torch
    g = torch.Generator().manual_seed(int(rng.integers(1 << 30)))
    with torch.no_grad():
        for p in mod.controller.cell.parameters():
            p.add_(scale * torch.randn(p.shape, generator=g))


def follow(m, names, prior, acts, obs, priors, key):
    """compare every recorded token, observation and mask with the naive prefix"""
    from kd.model.discover.program import Program, from_tokens
    lib = Program.library
    fun = [n for n in names if D.arity(n)]
    n, L = acts.shape
    for k in range(n):
        p = D.Prefix()
        prev = None
        for t in range(L):
            ban = D.forbidden(p, names, prior)
            mask = {names[j] for j in range(len(names)) if np.isneginf(priors[k, t, j])}
            m.saw("token")
            m.saw("masked-choice", len(mask))
            at = lambda: f"after {p.names} constraints {key}"
            if not m.check(ban <= mask, "constraint-enforced", lambda: f"{at()}: {sorted(ban - mask)} still allowed"):
                return
            if not m.check(mask <= ban, "nothing-else-forbidden", lambda: f"{at()}: {sorted(mask - ban)} excluded by no constraint"):
                return
            want = (len(names) if prev is None else names.index(prev),
                    len(fun) if p.parent is None else fun.index(p.parent),
                    len(names) if p.sibling is None else names.index(p.sibling), p.dangling)
            m.check(tuple(obs[k, :, t]) == want, "observation-describes-prefix", lambda: f"{at()}: {obs[k, :, t]} instead of {want}")
            tok = names[int(acts[k, t])]
            if not m.check(tok not in ban, "sampled-token-allowed", lambda: f"{at()}: sampled {tok}"):
                return
            p.push(tok)
            prev = tok
            if p.complete:
                break
        m.saw("expression")
        if not m.check(p.complete, "expression-complete", f"{p.names} constraints {key}"):
            return
        prog = from_tokens(acts[k])
        m.check([t.name for t in prog.traversal] == p.names, "program-is-the-sample", lambda: f"{prog} from {p.names}")
        m.distinct((tuple(names), key, tuple(p.names)))


def shifts(m, names, prior, acts, priors, key):
    """what no constraint excludes is shifted by the documented soft priors only, for one step or for all"""
    on = lambda k: bool(prior.get(k, {}).get("on"))
    ar = np.array([D.arity(n) for n in names])
    base = -np.log([np.sum(ar == a) for a in ar]) if on("uniform_arity") else np.zeros(len(names))
    loc, scale = (prior["soft_length"].get(k) for k in ("loc", "scale")) if on("soft_length") else (None, None)
    for k in range(len(acts)):
        stack = 1
        for t in range(acts.shape[1]):
            want = base.copy()
            if loc is not None and 0 < t < loc:
                want = None
            elif loc is not None and t:
                want = want - (ar > 0) * (t - loc) ** 2 / (2 * scale)
            if want is not None:
                fin = np.isfinite(priors[k, t])
                m.close(priors[k, t][fin], want[fin], "soft-prior", 1e-4, 1e-5, f"step {t} constraints {key}")
                m.saw("soft")
            stack += ar[int(acts[k, t])] - 1
            if stack == 0:
                break


def at_once(m, mod, acts, obs, priors, key):
    """priors and relatives computed for whole sequences are those of the steps"""
    from kd.model.discover.program import Program
    from kd.model.discover.dso.subroutines import jit_parents_siblings_at_once
    lib = Program.library
    with R.quiet():
        par, sib = jit_parents_siblings_at_once(acts.astype(np.int32), lib.arities, lib.parent_adjust)
        pr = np.asarray(mod.prior.at_once(acts, par, sib))
    ar = np.asarray(lib.arities)
    for k in range(len(acts)):
        n = int(np.argmax(np.cumsum(ar[acts[k]] - 1) == -1)) + 1
        m.check(np.array_equal(par[k, :n], obs[k, 1, :n]) and np.array_equal(sib[k, :n], obs[k, 2, :n]), "relatives-at-once", key)
        a, b = (np.maximum(v[k, :n], -1e9) for v in (pr, priors))
        m.close(a, b, "priors-at-once", 1e-5, 1e-5, key)
        m.saw("at-once")


def dead_end(rng, names, prior, n):
    """can the constraints themselves leave no token to choose?"""
    for _ in range(n):
        p = D.Prefix()
        while not p.complete:
            ok = sorted(set(names) - D.forbidden(p, names, prior))
            if not ok:
                return True
            p.push(ok[int(rng.integers(len(ok)))])
    return False


def steps(m, mod, acts, obs, priors):
    """the sampled tokens follow the distribution the training step assigns to them"""
    import torch
    from kd.model.discover.program import Program
    c = mod.controller
    with torch.no_grad():
        x = c.state_manager.get_tensor_input(obs)
        out = c.cell(x.reshape(-1, x.shape[-2], x.shape[-1]))[0]
        p = torch.softmax(out.reshape(priors.shape) + priors, -1).numpy().astype(float)
    a = acts.numpy()
    n, L, C = p.shape
    alive = np.ones(n, dtype=bool)
    stack = np.ones(n)
    ar = np.array([D.arity(x) for x in Program.library.names])
    for t in range(min(L, 10)):
        if alive.sum() < 40:
            break
        pt, at = p[alive, t], a[alive, t]
        for j in range(C):
            var = np.sum(pt[:, j] * (1 - pt[:, j]))
            if var < 20:
                continue
            z = (np.sum(at == j) - np.sum(pt[:, j])) / np.sqrt(var)
            m.saw("step-statistic")
            m.check(abs(z) < 6.5, "samples-follow-the-policy", f"step {t}: {Program.library.names[j]} drawn {np.sum(at == j)} times, expected {np.sum(pt[:, j]):.1f} (z={z:.1f})")
        stack += ar[a[:, t]] - 1
        alive &= stack > 0


@workload(quick=80, thorough=1000)
def constrained(m, rng, i):
    """random constraint sets over libraries of every kind"""
    kind, dim = ["fields", "fields", "space", "torch"][i % 4], 1
    pool = POOL
    if kind == "torch":
        pool = [p + "_t" for p in ("sub", "mul", "div", "diff", "diff2", "diff3", "n2", "n3")]
    if kind == "space":
        dim = int(rng.integers(2, 4))
        pool = [p for p in POOL if "diff" not in p] + (["Diff", "Diff2", "lap"] if dim == 2 else ["Diff_3", "Diff2_3", "lap_3"]) * 2
    add = "add_t" if kind == "torch" else "add"
    ops = list(dict.fromkeys([add] + [str(o) for o in rng.choice(pool, int(rng.integers(3, min(9, len(pool)))), replace=False)]))
    prior = random_prior(rng, ops, ops + ["x1", "u1"])
    fl = {"observe_action": bool(rng.integers(2)), "observe_parent": bool(rng.integers(2)), "observe_sibling": True,
          "observe_dangling": bool(rng.integers(2))}
    mod, env, names = make(rng, dim, prior, ops, fl)
    if rng.random() < 0.7:
        shake(rng, mod, 0.7)
    if dead_end(rng, names, mod.config["prior"], 150):
        raise Discard("contradictory constraints")
    try:
        with R.quiet():
            acts, obs, priors, _, _ = mod.controller.sample_episodes(int(rng.integers(2, 30)))
    except RuntimeError:
        if dead_end(rng, names, mod.config["prior"], 20000):
            raise Discard("contradictory constraints")
        raise
    key = str(sorted((k, str(v)) for k, v in prior.items() if k == "relational" or v.get("on")))
    follow(m, names, mod.config["prior"], acts.numpy(), obs.numpy(), priors.numpy(), key)
    shifts(m, names, mod.config["prior"], acts.numpy(), priors.numpy(), key)
    at_once(m, mod, acts.numpy(), obs.numpy(), priors.numpy(), key)


@workload(quick=32, thorough=300)
def shipped(m, rng, i):
    """the shipped constraint set, every dimension"""
    dim = 1 + i % 3
    mod, env, names = make(rng, dim)
    shake(rng, mod, float(rng.choice([0.0, 0.5, 1.5])))
    with R.quiet():
        acts, obs, priors, _, _ = mod.controller.sample_episodes(30)
    follow(m, names, mod.config["prior"], acts.numpy(), obs.numpy(), priors.numpy(), "shipped")


@workload(quick=24, thorough=200)
def policy(m, rng, i):
    ops = list(dict.fromkeys(["add", "mul"] + [str(o) for o in rng.choice(POOL, 3, replace=False)]))
    prior = dict(copy.deepcopy(OFF), length={"min_": 4, "max_": int(rng.integers(10, 20)), "on": True})
    fl = [{"observe_action": True}, {"observe_parent": True, "observe_sibling": True},
          {"observe_action": True, "observe_parent": True, "observe_dangling": True}][i % 3]
    mod, env, names = make(rng, 1, prior, ops, fl)
    shake(rng, mod, 0.9)
    with R.quiet():
        acts, obs, priors, _, _ = mod.controller.sample_episodes(600)
    steps(m, mod, acts, obs, priors)
    m.distinct(("policy", tuple(names), i))
