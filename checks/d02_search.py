"""D02: Discover's search reports the best equation it evaluated and trains on the rewards it observed."""
import copy, math
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D

PROPERTY = "D02"
RULE = "distinct (configuration, batch of sampled programs) search steps whose bookkeeping and gradient were recomputed"
REQUIRE = {"step": 100, "trained": 60, "gradient": 60, "search": 12, "program": 1000, "queue": 60}
ASSUME = ["ties in reward may be broken either way", "the controller is a torch module; its gradients are read after the step"]


def cfg_of(rng):
    gamma = float(rng.choice([0.7, 1.0, 0.9]))
    c = {"training": {"epsilon": float(rng.choice([0.02, 0.1, 0.3, 0.5, 1.0]))},
         "controller": {"num_units": int(rng.choice([6, 12, 32])), "max_length": 64,
                        "entropy_weight": float(rng.choice([0.0, 0.03, 0.2])), "entropy_gamma": gamma,
                        "learning_rate": float(rng.choice([0.0025, 0.02])), "optimizer": str(rng.choice(["adam", "sgd"])),
                        "pqt": bool(rng.random() < 0.7), "pqt_k": int(rng.choice([1, 3, 10])), "pqt_batch_size": int(rng.choice([1, 2])),
                        "pqt_weight": float(rng.choice([0.0, 1.0, 20.0]))},
         "prior": {"length": {"min_": 3, "max_": int(rng.integers(8, 24)), "on": True}}}
    if rng.random() < 0.4:
        c["controller"]["pqt_use_pg"] = bool(rng.random() < 0.5)
    if rng.random() < 0.3:
        c["state_manager"] = {"observe_action": True, "observe_dangling": True}
    return c


def model(rng, batch=None, dim=None, **kw):
    from kd.model.kd_discover import KD_Discover
    dim = dim or int(rng.choice([1, 1, 2, 3]))
    ds, env, _ = D.gen_problem(rng, dim)
    ops = [["add", "mul", "diff", "diff2", "n2"], ["add", "sub", "mul", "diff", "cos"], [], []][rng.integers(4)] if dim == 1 else []
    b = [o for o in ops if D.arity(o) == 2]
    cfg = cfg_of(rng)
    mod = KD_Discover(n_iterations=3, n_samples_per_batch=batch or int(rng.integers(100, 260) if rng.random() < 0.25 else rng.integers(12, 70)), binary_operators=b,
                      unary_operators=[o for o in ops if o not in b], out_path=None, seed=int(rng.integers(1 << 20)), config_out=cfg, **kw)
    return mod, ds, env, cfg


class Watch:
    """records what a real search samples, pushes and trains on"""

    def __init__(self, mod):
        import torch
        self.mod, self.log = mod, []
        s, c = mod.searcher, mod.controller
        real_sample, real_train = c.sample_episodes, c.train_step
        cur = {}

        def sample(n):
            out = real_sample(n)
            cur.clear()
            cur.update(acts=out[0].numpy().copy(), obs=out[1].numpy().copy(), pri=out[2].numpy().copy(), train=None)
            self.log.append(dict(cur))
            return out

        def train(b, batch, pqt):
            e = self.log[-1]
            before = [p.detach().clone() for p in c.cell.parameters()]
            e["train"] = dict(b=float(b), batch=batch, pqt=pqt, want=self.gradient(float(b), batch, pqt))
            r = real_train(b, batch, pqt)
            e["train"]["got"] = [None if p.grad is None else p.grad.detach().clone() for p in c.cell.parameters()]
            e["train"]["moved"] = any(not torch.equal(x, y) for x, y in zip(before, c.cell.parameters()))
            return r
        c.sample_episodes, c.train_step = sample, train

    def gradient(self, b, batch, pqt):
        """gradient of the documented loss, on a copy of the network"""
        import torch
        c = self.mod.controller
        cfg = dict(self.mod.config["controller"])
        cell = copy.deepcopy(c.cell)
        for p in cell.parameters():
            p.grad = None

        def parts(B):
            x = c.state_manager.get_tensor_input(B.obs)
            out = cell(x.reshape(-1, x.shape[-2], x.shape[-1]))[0].reshape(B.priors.shape) + B.priors
            lp = torch.log_softmax(out.double(), -1)
            pr = lp.exp()
            nl, en = [], []
            for k in range(lp.shape[0]):
                L = int(B.lengths[k])
                idx = torch.arange(L)
                nl.append(-lp[k][idx, B.actions[k][:L].long()].sum())
                safe = torch.where(pr[k][:L] > 0, lp[k][:L], torch.zeros_like(lp[k][:L]))
                ent = -(pr[k][:L] * safe).sum(-1)
                g = cfg.get("entropy_gamma")
                g = 1.0 if g is None else g
                en.append((ent * torch.tensor([g ** t for t in range(L)], dtype=torch.float64)).sum())
            return torch.stack(nl), torch.stack(en)
        nl, en = parts(batch)
        loss = -cfg["entropy_weight"] * en.mean()
        if not cfg["pqt"] or cfg["pqt_use_pg"]:
            loss = loss + ((torch.as_tensor(np.array(batch.rewards, dtype=float)) - b) * nl).mean()
        if cfg["pqt"]:
            loss = loss + cfg["pqt_weight"] * parts(pqt)[0].mean()
        loss.backward()
        return [None if p.grad is None else p.grad.detach().clone() for p in cell.parameters()]


def length_of(names, row):
    p = D.Prefix()
    for t in row:
        p.push(names[int(t)])
        if p.complete:
            break
    return len(p.names)


def judge_step(m, mod, e, state):
    """one entry of the log; state carries the running best and queue"""
    from kd.model.discover.program import Program, from_tokens
    s = mod.searcher
    names = list(Program.library.names)
    m.saw("step")
    progs = [from_tokens(a) for a in e["acts"]]
    r = np.array([float(p.r_ridge) for p in progs])
    inv = np.array([bool(p.invalid) for p in progs])
    m.saw("program", len(progs))
    r0 = np.where(np.isnan(r), 0.0, r)
    q = np.quantile(r0, 1 - mod.config["training"]["epsilon"], method="higher")
    keep = np.where((r0 >= q) & ~inv)[0]
    for k, p in enumerate(progs):
        if not inv[k] and np.isfinite(r[k]):
            state["best"] = max(state["best"], r[k])
            state["all"].append((r[k], p.str))
    if len(keep) == 0:
        m.check(e["train"] is None, "nothing-to-train-on", "trained on an empty selection")
        return
    tr = e["train"]
    if not m.check(tr is not None, "elite-is-trained-on", f"{len(keep)} selected programs were not used"):
        return
    m.saw("trained")
    B = tr["batch"]
    acts = np.array(B.actions)
    m.close(tr["b"], q, "baseline-is-the-quantile", rtol=1e-12)
    if m.check(acts.shape == e["acts"][keep].shape and np.array_equal(acts, e["acts"][keep]), "trains-on-the-elite",
               lambda: f"{acts.shape[0]} rows instead of the {len(keep)} best of {len(r)}"):
        m.close(np.array(B.rewards, dtype=float), np.clip(r0[keep], -1e6, 1e6), "elite-rewards-aligned", rtol=1e-9)
        m.check(np.array_equal(np.array(B.obs), e["obs"][keep]), "elite-observations-aligned", "observations of other rows")
        m.check(np.array_equal(np.array(B.priors), e["pri"][keep]), "elite-priors-aligned", "constraint masks of other rows")
        L = np.array([length_of(names, a) for a in e["acts"][keep]])
        m.check(np.array_equal(np.array(B.lengths), L), "elite-lengths-aligned", lambda: f"{np.array(B.lengths)} {L}")
        m.distinct((len(state["all"]), acts.tobytes(), str(mod.config["controller"])))
    for k in keep:
        state["pushed"].setdefault(progs[k].str, r0[k])
    if mod.config["controller"]["pqt"]:
        P = tr["pqt"]
        for k in range(len(P.actions)):
            row = np.array(P.actions[k])
            n = length_of(names, row)
            got = from_tokens(row)
            m.check(abs(float(P.rewards[k]) - float(got.r_ridge)) < 1e-5 * (1 + abs(float(got.r_ridge))), "queue-rewards-aligned",
                    lambda: f"{float(P.rewards[k])} instead of {got.r_ridge}")
            m.check(int(P.lengths[k]) == n, "queue-lengths-aligned", f"{int(P.lengths[k])} {n}")
    # the gradient
    for g, w in zip(tr["got"], tr["want"]):
        if w is None or g is None:
            m.check(w is None or g is not None or float(w.abs().max()) == 0, "every-weight-is-trained", "no gradient")
            continue
        g, w = g.double().numpy(), w.double().numpy()
        m.saw("gradient")
        m.check(np.all(np.isfinite(g)), "gradient-finite", "nan gradient")
        tol = 2e-3 * (np.max(np.abs(w)) + 1e-6) + 1e-6
        m.check(np.max(np.abs(g - w)) <= tol, "gradient-of-the-documented-loss", lambda: f"off by {np.max(np.abs(g - w))} of {np.max(np.abs(w))}")
    if max((float(w.abs().max()) for w in tr["want"] if w is not None), default=0) > 1e-5:
        m.check(tr["moved"], "controller-learns", "weights unchanged by the step")


def judge_state(m, mod, state):
    from kd.model.discover.program import Program
    s = mod.searcher
    if not state["pushed"]:
        return
    m.saw("queue")
    m.close(s.r_best, state["best"], "best-reward-is-the-best-seen", rtol=1e-12)
    m.check(s.best_p is not None and abs(float(s.best_p.r_ridge) - state["best"]) < 1e-12, "best-program-is-the-best-seen",
            lambda: f"{s.best_p} {float(s.best_p.r_ridge)} instead of {state['best']}")
    q = [str_ for str_, _ in s.pq.iter_in_order()]
    k = mod.config["controller"]["pqt_k"]
    top = sorted(state["pushed"].values(), reverse=True)[:k]
    got = [state["pushed"].get(x) for x in q]
    m.check(len(set(q)) == len(q), "queue-holds-no-duplicates", f"{len(q)} entries")
    m.check(None not in got, "queue-holds-evaluated-programs", "a queued program was never selected")
    if None not in got:
        m.check(got == sorted(got, reverse=True), "queue-in-order", str(got))
        m.check(len(got) == len(top) and np.allclose(got, top, rtol=1e-6), "queue-holds-the-best", f"{got} instead of {top}")
    m.check(s.best_expression in state["pushed"] and state["pushed"][s.best_expression] == max(state["pushed"].values()),
            "queue-max", "best_expression is not the best queued program")


def fresh():
    return {"best": -math.inf, "all": [], "pushed": {}}


@workload(quick=40, thorough=400)
def steps(m, rng, i):
    """single steps through train_one_step"""
    mod, ds, env, cfg = model(rng)
    with R.quiet():
        mod.import_dataset(ds)
        w = Watch(mod)
        st = fresh()
        for e in range(int(rng.integers(2, 6))):
            before = mod.searcher.nevals
            info = mod.train_one_step(epoch=e, verbose=False)
            m.check(mod.searcher.nevals - before == mod.n_samples_per_batch == len(w.log[-1]["acts"]), "evaluations-counted", f"{mod.searcher.nevals - before}")
            judge_step(m, mod, w.log[-1], st)
            judge_state(m, mod, st)
            if info is not None:
                p = info["program"]
                batch = [float(x.r_ridge) for x in map(lambda a: _prog(a), w.log[-1]["acts"]) if not x.invalid]
                m.close(info["r"], max(batch), "step-result-is-the-batch-best", rtol=1e-12)
                m.check(info["r"] == p.r_ridge and info["expression"] == p.str_expression, "step-result-consistent", str(info))


def _prog(a):
    from kd.model.discover.program import from_tokens
    return from_tokens(a)


@workload(quick=24, thorough=240)
def searches(m, rng, i):
    """whole searches, possibly several on one model"""
    mod, ds, env, cfg = model(rng)
    n = int(rng.integers(1, 5))
    with R.quiet():
        if rng.random() < 0.5:
            mod.import_dataset(ds)
            w = Watch(mod)
            rounds = []
            for _ in range(int(rng.integers(1, 3))):
                mark = len(w.log)
                res = mod.train(n_epochs=n, verbose=bool(rng.random() < 0.3))
                rounds.append((res, w.log[mark:]))
                st = fresh()
                for e in w.log[mark:]:
                    judge_step(m, mod, e, st)
                m.check(len(w.log) - mark == n, "one-batch-per-epoch", f"{len(w.log) - mark} batches in {n} epochs")
                m.saw("search")
                m.close(res["r"], st["best"] if st["all"] else 0.0, "search-returns-the-best", rtol=1e-12)
                p = res["program"]
                m.check(res["expression"] == p.str_expression and res["traversal"] == repr(p) and float(p.r_ridge) == float(res["r"]),
                        "search-result-consistent", lambda: str(res))
                judge_state(m, mod, st)
                hist = mod.searcher.r_history
                want = sum(1 for e in w.log[mark:] if e["train"] is not None)
                m.check(len(hist) == want == len(mod.searcher.r_train), "history-has-one-entry-per-step", f"{len(hist)} {want}")
        else:
            res = mod.fit_dataset(ds, n_epochs=n, verbose=False)
            m.saw("search")
            from kd.model.discover.program import Program
            allr = [float(p.r_ridge) for p in Program.cache.values() if not p.invalid and np.isfinite(p.r_ridge)]
            m.close(res["r"], max(allr) if allr else 0.0, "search-returns-the-best", rtol=1e-12)
            p = res["program"]
            m.check(res["expression"] == p.str_expression and res["traversal"] == repr(p), "search-result-consistent", lambda: str(res))


@workload(quick=16, thorough=150)
def history(m, rng, i):
    """reward histories: which rewards enter the record used by the plots"""
    mod, ds, env, cfg = model(rng, batch=40)
    with R.quiet():
        mod.import_dataset(ds)
        w = Watch(mod)
        for e in range(3):
            mod.train_one_step(epoch=e, verbose=False)
        k = 0
        for e in w.log:
            if e["train"] is None:
                continue
            pr = [_prog(a) for a in e["acts"]]
            want = [float(p.r_ridge) for p in pr if not p.invalid and p.r_ridge > 0]
            m.close(np.array(mod.searcher.r_history[k], dtype=float), np.array(want), "history-holds-the-valid-rewards", rtol=1e-12)
            k += 1


@workload(quick=60, thorough=600)
def queue(m, rng, i):
    """the priority queue against a sorted dictionary, over long push histories"""
    from kd.model.discover.dso.memory import make_queue
    cap = int(rng.integers(1, 12))
    q = make_queue(priority=True, capacity=cap, seed=int(rng.integers(100)))
    ref = {}
    held = {}
    for step in range(int(rng.integers(5, 120))):
        item = "p%d" % rng.integers(0, 40)
        score = float(rng.choice([rng.normal(), rng.integers(0, 5)]))
        q.push(score, item, extra_data=(item, score))
        if item not in held:
            held[item] = score
            if len(held) > cap:
                lo = min(held.values())
                out = [k for k, v in held.items() if v == lo]
                now = {it for it, _ in q.iter_in_order()}
                gone = [k for k in out if k not in now]
                if not m.check(len(gone) == 1, "queue-drops-the-worst", f"dropped {set(held) - now} of {held}"):
                    return
                del held[gone[0]]
        items = list(q.iter_in_order())
        m.check({a for a, _ in items} == set(held), "queue-membership", lambda: f"{items} {held}")
        sc = [held.get(a) for a, _ in items]
        m.check(None not in sc and sc == sorted(sc, reverse=True), "queue-in-order", str(sc))
        m.check(all(b == (a, held[a]) for a, b in items if a in held), "queue-keeps-data", lambda: str(items))
        if items:
            mx = q.get_max()
            m.check(held.get(mx[1] if not isinstance(mx[1], tuple) else mx[1][0]) == max(held.values()), "queue-max", str(mx))
            n = int(rng.integers(1, len(items) + 1))
            smp = list(q.random_sample(n))
            m.check(len(smp) == n and all(a in held for a, _ in smp), "queue-sample-from-members", lambda: str(smp))
        m.saw("push")
    m.distinct(("queue", cap, str(sorted(held))))
