"""E02: EqGPT returns the best equations it sampled, from surrogates of the data given, reproducibly."""
import atexit, copy, os, pickle, shutil, tempfile
import numpy as np
from vkit import workload, Discard
from vkit import eqgpt_ref as Q
from vkit import sga_ref as R
from checks.e01_eqgpt_reward import vocab, split_words, judge_duplicates

PROPERTY = "E02"
RULE = "distinct (data, seed, setting) searches and distinct ranking, training or sampling cases whose outcome was recomputed"
REQUIRE = {"search": 10, "sampled": 150, "ranked": 10, "grown": 3, "recomputed": 30, "surrogate": 4, "repeat": 4, "refused": 30, "merge": 100,
           "trained": 10, "causal": 10, "step": 300, "stored": 4}
ASSUME = ["language model weights are random and its layers fewer, so that a search takes seconds",
          "rewards are held in single precision by the search"]
_weights = {}


def modules():
    from kd.model import kd_eqgpt as K
    from kd.model.eqgpt import continue_train_GPT_all as T, gpt_model as G
    return K, T, G


def weights(seed=0):
    """a file of random weights of a small language model"""
    if seed not in _weights:
        import torch
        K, T, G = modules()
        G.n_layers = 1
        torch.manual_seed(seed)
        d = tempfile.mkdtemp(prefix="e02w_")
        atexit.register(shutil.rmtree, d, True)
        path = os.path.join(d, "w.pt")
        torch.save(G.GPT().state_dict(), path)
        _weights[seed] = path
    return _weights[seed]


def case_name(rng, kind):
    return f"{kind}_G{int(rng.integers(1, 5))}Tp{int(rng.integers(9, 15))}A{int(rng.integers(50, 150))}_{rng.choice(['narrow', 'broad'])}{int(rng.integers(100))}"


def wave(rng, name):
    """gauge records (t, x, height) of one case, and its period and wavelength"""
    tp = int(name.split("Tp")[1].split("A")[0]) / 10
    lam = 9.81 * tp ** 2 / (2 * np.pi)
    T = float(rng.uniform(0.7, 1.1))
    t = np.linspace(0.05, T, int(rng.integers(10, 16)))
    x = np.concatenate([np.linspace(a, a + 1.16, int(rng.integers(5, 9))) for a in (8.18, 9.77, 11.41)])
    TT, XX = np.meshgrid(t, x, indexing="ij")
    k, w, p = 2 * np.pi / lam * rng.uniform(0.3, 0.6), 2 * np.pi / tp * rng.uniform(0.3, 0.7), rng.uniform(0, 6)
    h = 0.03 * lam * (1.5 + np.sin(k * (XX - 8.17) - w * TT + p))
    return np.stack([TT.ravel(), XX.ravel(), h.ravel()], 1), tp, lam


class Box:
    """data directory, package weights directory and recording of one or more searches"""

    def __init__(self, m, cases, gpt=0, have_pkl=True, have_gpt=True):
        self.m, self.cases = m, cases
        self.tmp = tempfile.mkdtemp(prefix="e02_")
        self.data = os.path.join(self.tmp, "data")
        os.makedirs(os.path.join(self.data, "gpt_model"))
        if have_gpt:
            os.symlink(weights(gpt), os.path.join(self.data, "gpt_model", "PDEGPT_wave_breaking.pt"))
        if have_pkl:
            with open(os.path.join(self.data, "wave_breaking_data.pkl"), "wb") as f:
                pickle.dump(cases, f)
        self.log, self.train, self.temps = [], [], []

    def __enter__(self):
        from pathlib import Path
        K, T, G = modules()
        self.K, self.T = K, T
        self.old = (K._DATA_DIR, T.calculate_reward, T.train_step, tempfile.tempdir)
        K._DATA_DIR = Path(self.data)
        scratch = os.path.join(self.tmp, "t")
        os.makedirs(scratch, exist_ok=True)
        tempfile.tempdir = scratch
        self.package = K._EQGPT_DIR
        self.scratch = scratch

        def reward(s, nets, dbs, w2v, mask, variables, nx, nt):
            seen = list(s), mask.clone()
            r = self.old[1](s, nets, dbs, w2v, mask, variables, nx, nt)
            self.log.append((seen[0], float(r[0]), seen[1], nets, dbs, nx, nt, list(variables)))
            return r

        def step(model, loader, *a, **k):
            self.train.append((len(self.log), [list(d) for d in loader.dataset.datas]))
            return self.old[2](model, loader, *a, **k)
        T.calculate_reward, T.train_step = reward, step
        import torch
        self.stored, self.torch_save = {}, torch.save

        def save(obj, f, *a, **k):
            if str(f).startswith(scratch) and isinstance(obj, dict):
                self.stored.setdefault(os.path.dirname(str(f)), []).append({n: v.clone() for n, v in obj.items()})
            return self.torch_save(obj, f, *a, **k)
        torch.save = save
        from kd.model.eqgpt.neural_network import NN
        self.nn, self.forward, self.checked = NN, NN.forward, []

        def forward(net, x):
            if not torch.is_grad_enabled():
                self.checked.append(x.detach().clone())
            return self.forward(net, x)
        NN.forward = forward
        return self

    def __exit__(self, *a):
        self.K._DATA_DIR, self.T.calculate_reward, self.T.train_step, tempfile.tempdir = self.old
        self.K._EQGPT_DIR = self.package
        import torch
        torch.save, self.nn.forward = self.torch_save, self.forward
        shutil.rmtree(self.tmp, ignore_errors=True)

    def save(self, rng, name):
        """stored surrogate weights of a case at several epochs; returns those of the best epoch"""
        import torch
        from pathlib import Path
        from kd.model.eqgpt.neural_network import NN
        root = Path(self.tmp) / "package"
        self.K._EQGPT_DIR = root
        d = root / "model_save" / "wave_breaking" / f"95_0_{name}(Non_unit)"
        d.mkdir(parents=True)
        best, states = 500 * int(rng.integers(1, 4)), {}
        for e in (500, 1000, 1500):
            torch.manual_seed(int(rng.integers(1 << 20)))
            net = NN(Num_Hidden_Layers=6, Neurons_Per_Layer=60, Input_Dim=2, Output_Dim=1, Data_Type=torch.float32, Device="cpu",
                     Activation_Function="Sin", Batch_Norm=False)
            states[e] = net.state_dict()
            torch.save(states[e], str(d / f"Net_Sin_{e}.pkl"))
        np.save(str(d / "best_epoch.npy"), np.array([best]))
        return states[best]

    def run(self, **kw):
        """(result, samples, training batches) of one search"""
        a, b = len(self.log), len(self.train)
        from kd.model import KD_EqGPT
        e = KD_EqGPT(**kw)
        before = copy.deepcopy(vars(e))
        with R.quiet(), np.errstate(all="ignore"):
            out = e.fit_pretrained()
        self.m.check(vars(e) == before, "settings-unchanged", f"{kw}: {vars(e)}")
        self.m.check(not [f for f in os.listdir(self.scratch) if "torchinductor" not in f], "no-files-left", f"{os.listdir(self.scratch)}")
        return out, self.log[a:], [(n - a, d) for n, d in self.train[b:]]


def text(ids, id2word):
    return "".join(id2word[int(k)] for k in ids)


def judge_search(m, out, log, train, epochs, samples, id2word, w2i, label):
    from kd.model.eqgpt.continue_train_GPT_all import delete_duplicate
    m.check(len(log) == epochs * samples, "as-many-as-asked", f"{label}: {len(log)}")
    base = log[0][2].tolist()
    for s, r, mask, *_ in log:
        w = [id2word[int(k)] for k in s]
        m.check(w[:2] == ["ut", "+"] and len(w) <= 48, "shape", f"{label}: {w}")
        m.check(all(x in ("E", "+", "*", "/") for x in w[1::2]) and "E" not in w[:-1] and (w[-1] == "E" or len(w) == 48), "alternates", f"{label}: {w}")
        terms = w[2::2]
        m.check(all(w2i[x] > 5 and Q.needs(x) <= {"x"} and "t" not in x for x in terms), "defined-words", f"{label}: {w}")
        m.check(all(float(base[w2i[x]]) for x in terms), "allowed-words", f"{label}: {w}")
        m.check(np.isfinite(r), "finite", f"{label}: {w} {r}")
        m.saw("sampled")
    # ranking
    best = {}
    for n, (s, r, *_) in enumerate(log):
        best.setdefault(float(np.float32(r)), []).append(text(delete_duplicate([int(k) for k in s])[:-1], id2word))
    want = sorted(best, reverse=True)[:10]
    m.check(list(out["rewards"]) == want, "best-kept", lambda: f"{label}: {out['rewards']} instead of {want}")
    m.check(len(out["equations"]) == len(out["rewards"]), "paired", label)
    for e, r in zip(out["equations"], out["rewards"]):
        m.check(e in best.get(float(r), []), "equation-of-that-reward", f"{label}: {e} {r}")
    m.check(out["best_equation"] == out["equations"][0] and out["best_reward"] == out["rewards"][0], "best-first", label)
    m.check(all(isinstance(r, float) for r in out["rewards"]), "plain-numbers", label)
    m.saw("ranked")
    if len(want) > samples or len(want) > len({float(np.float32(l[1])) for l in log[:samples]}):
        m.saw("grown")
    # fine tuning uses the best so far
    for n, datas in train:
        m.check(n % samples == 0, "trains-after-each-epoch", f"{label}: {n}")
        seen = {}
        for s, r, *_ in log[:n]:
            seen.setdefault(float(np.float32(r)), []).append([int(k) for k in delete_duplicate([int(k) for k in s])])
        top = sorted(seen, reverse=True)[:10]
        S = w2i["S"]
        got = [[int(k) for k in d] for d in datas]
        m.check(len(got) == len(top) and all(d[0] == S and d[1:] in seen[r] for d, r in zip(got, top)), "trains-on-the-best",
                lambda: f"{label}: {[text(d, id2word) for d in got]}")
        m.saw("trained")
    m.check({n for n, _ in train} == {samples * (k + 1) for k in range(epochs)}, "trains-every-epoch", f"{label}: {[n for n, _ in train]}")


def judge_rewards(m, rng, log, id2word, label, count=4):
    from kd.model.eqgpt.continue_train_GPT_all import delete_duplicate
    for k in rng.permutation(len(log))[:count]:
        s, r, mask, nets, dbs, nx, nt, variables = log[k]
        kw = [id2word[int(t)] for t in delete_duplicate([int(t) for t in s])][:-1]
        judge_duplicates(m, [id2word[int(t)] for t in (s[:-1] if id2word[int(s[-1])] == "E" else s)], kw, label)
        if "/" in kw or len(kw) > 16:
            continue
        with np.errstate(all="ignore"):
            want, _ = Q.reward(kw, [Q.Env(n, d, variables) for n, d in zip(nets, dbs)], variables, 1e-3)
        if want is None:
            continue
        m.check(any(abs(r - w) <= 5e-3 * max(1, abs(w)) for w in want), "reward", lambda: f"{label}: {''.join(kw)} {r} instead of {want}")
        m.saw("recomputed")


def judge_surrogates(m, log, cases, used, label, learned, stored=(), checked=()):
    import torch
    nets, dbs, nx, nt = log[0][3:7]
    m.check(len(nets) == len(used) == len(dbs), "one-surrogate-per-case", f"{label}: {len(nets)} of {used}")
    if len(nets) != len(used):
        return
    for name, net, db, a, b in zip(sorted(used), nets, dbs, nx, nt):
        data, tp, lam = cases[name]
        X = db.detach().numpy().astype(float)
        m.check(len(X) == a * b and len(np.unique(X[:, 0])) == b and len(np.unique(X[:, 1])) == a, "grid", f"{label} {name}: {X.shape} {a} {b}")
        t, x = X[:, 0] * tp, X[:, 1] * lam + 8.17
        m.check(t.min() >= data[:, 0].min() - 1e-3 and t.max() <= data[:, 0].max() + 1e-3, "times-within-the-data", f"{label} {name}: {t.min()} {t.max()}")
        m.check(x.min() >= data[:, 1].min() - 1e-2 and x.max() <= data[:, 1].max() + 1e-2, "places-within-the-data", f"{label} {name}: {x.min()} {x.max()}")
        if learned:
            inp = np.stack([data[:, 0] / tp, (data[:, 1] - 8.17) / lam], 1)
            want = data[:, 2] / lam * 100
            with torch.no_grad():
                got = net(torch.tensor(inp, dtype=torch.float32)).numpy().ravel()
            r2 = 1 - ((got - want) ** 2).sum() / ((want - want.mean()) ** 2).sum()
            m.check(r2 > 0.7, "surrogate-fits-the-data", f"{label} {name}: R2 {r2}")
            m.saw("surrogate")
            # validation points: rows of this case that were evaluated without gradients during training
            rows = {tuple(r): v for r, v in zip(inp.astype(np.float32).tolist(), want)}
            val = [x for x in checked if 0 < len(x) < len(rows) and all(tuple(r) in rows for r in x.tolist())]
            kept = [q for f, qs in stored for q in qs if f"_{name}(" in f]
            if len(kept) > 1 and val:
                goal = np.array([rows[tuple(r)] for r in val[0].tolist()])
                err = lambda: float(((net(val[0]).detach().numpy().ravel() - goal) ** 2).mean())
                mine, keep, scores = err(), copy.deepcopy(net.state_dict()), []
                for state in kept:
                    net.load_state_dict(state)
                    scores.append(err())
                net.load_state_dict(keep)
                m.check(mine <= min(scores) * (1 + 1e-4) + 1e-9, "best-epoch-used", lambda: f"{label} {name}: error {mine}, stored {scores}")
                m.saw("several-epochs")


@workload(quick=16, thorough=120, timeout=300)
def searches(m, rng, i):
    """whole searches on synthetic wave records"""
    id2word, w2i = vocab()
    kinds = ["N", "N", "L"] if i % 2 else ["N"]
    names = sorted({case_name(rng, k) for k in kinds})
    cases = {n: wave(rng, n) for n in names}
    filt = str(rng.choice(["N", "all"]))
    used = [n for n in names if filt == "all" or "N" in n]
    learned = i % 4 == 1
    epochs, samples = [(1, 6), (3, 3), (2, 8), (4, 4), (1, 14), (5, 2)][i % 6]
    kw = dict(optimize_epochs=epochs, samples_per_epoch=samples, case_filter=filt, seed=int(rng.integers(1 << 20)), retrain_surrogate=True,
              surrogate_epochs=int(rng.choice([500, 1000, 1600])) if learned else int(rng.integers(2, 12)))
    label = f"{names} {kw}"
    package = os.path.join(os.path.dirname(modules()[0].__file__), "eqgpt")
    listing = sorted(os.listdir(package))
    with Box(m, {n: c[0] for n, c in cases.items()}) as box:
        files = {f: os.stat(os.path.join(box.data, f)).st_mtime_ns for f in os.listdir(box.data)}
        out, log, train = box.run(**kw)
        judge_search(m, out, log, train, epochs, samples, id2word, w2i, label)
        judge_surrogates(m, log, cases, used, label, learned, list(box.stored.items()), box.checked)
        judge_rewards(m, rng, log, id2word, label)
        m.saw("search")
        if i % 2:
            import random, torch
            for _ in range(int(rng.integers(1, 5))):
                random.random(), np.random.random(), torch.rand(3)
            m.check(files == {f: os.stat(os.path.join(box.data, f)).st_mtime_ns for f in os.listdir(box.data)}, "data-untouched", label)
            if rng.random() < 0.5:         # the same records, stored in another order
                with open(os.path.join(box.data, "wave_breaking_data.pkl"), "wb") as fh:
                    pickle.dump({n: cases[n][0] for n in reversed(names)}, fh)
                files = {f: os.stat(os.path.join(box.data, f)).st_mtime_ns for f in os.listdir(box.data)}
            out2, log2, _ = box.run(**kw)
            m.check(out2 == out, "repeatable", lambda: f"{label}: {out2['best_equation']} / {out['best_equation']}")
            m.check([list(map(int, l[0])) for l in log2] == [list(map(int, l[0])) for l in log], "samples-repeat", label)
            m.saw("repeat")
        m.check(files == {f: os.stat(os.path.join(box.data, f)).st_mtime_ns for f in os.listdir(box.data)}, "data-untouched", label)
    m.check(sorted(os.listdir(package)) == listing, "package-untouched", label)
    m.distinct(label)


@workload(quick=6, thorough=40, timeout=120)
def stored(m, rng, i):
    """searches on stored surrogates use the best epoch of each case that has one"""
    import torch
    id2word, w2i = vocab()
    names = sorted({case_name(rng, k) for k in ("N", "N", "N", "L")})
    cases = {n: wave(rng, n) for n in names}
    filt = str(rng.choice(["N", "all"]))
    have = [n for n in names if "N" in n][:2] + [n for n in names if "L" in n]
    with Box(m, {n: c[0] for n, c in cases.items()}) as box:
        want = {n: box.save(rng, n) for n in have}
        used = sorted(n for n in have if filt == "all" or "N" in n)
        kw = dict(optimize_epochs=int(rng.integers(1, 3)), samples_per_epoch=2, case_filter=filt, seed=int(rng.integers(99)))
        label = f"{names} {kw}"
        files = sorted((d, tuple(sorted(f))) for d, _, f in os.walk(os.path.join(box.tmp, "package")))
        out, log, train = box.run(**kw)
        judge_search(m, out, log, train, kw["optimize_epochs"], 2, id2word, w2i, label)
        judge_surrogates(m, log, cases, used, label, False)
        for n, net in zip(used, log[0][3]):
            got = net.state_dict()
            m.check(all(torch.equal(got[k], v) for k, v in want[n].items()), "best-stored-weights", f"{label} {n}")
        m.check(files == sorted((d, tuple(sorted(f))) for d, _, f in os.walk(os.path.join(box.tmp, "package"))), "stored-weights-untouched", label)
    m.saw("stored")
    m.distinct(label)


@workload(quick=60, thorough=400)
def refusals(m, rng, i):
    from kd.model import KD_EqGPT
    kind = i % 13
    if kind < 8:
        bad = [dict(pretrained="wave"), dict(optimize_epochs=0), dict(optimize_epochs=2.0), dict(samples_per_epoch=-int(rng.integers(0, 5))),
               dict(samples_per_epoch="4"), dict(case_filter="n"), dict(seed=-int(rng.integers(1, 9))), dict(case_filter=None)][kind]
        m.raises((ValueError, TypeError), lambda: KD_EqGPT(**bad), "setting-refused", str(bad))
    else:
        name = case_name(rng, "N")
        cases = {name: wave(rng, name)[0]}
        kw = dict(optimize_epochs=1, samples_per_epoch=2, retrain_surrogate=True, surrogate_epochs=2, seed=3)
        if kind == 8:
            with Box(m, cases, have_pkl=False) as b:
                m.raises(FileNotFoundError, lambda: b.run(**kw), "missing-data-refused", "")
        elif kind == 9:
            with Box(m, cases, have_gpt=False) as b:
                m.raises(FileNotFoundError, lambda: b.run(**kw), "missing-weights-refused", "")
        elif kind == 12:
            with Box(m, {f"N_case{i}": cases[name]}) as b:
                m.raises(ValueError, lambda: b.run(**kw), "unreadable-case-refused", "")
        elif kind == 10:
            with Box(m, {name.replace("N_", "L_"): cases[name]}) as b:
                m.raises(RuntimeError, lambda: b.run(**kw), "no-case-refused", "")
        else:
            with Box(m, cases) as b:
                m.raises(RuntimeError, lambda: b.run(**{**kw, "retrain_surrogate": False}), "no-surrogate-refused", "")
    m.saw("refused")
    m.distinct(("refused", i))


@workload(quick=120, thorough=2000)
def merging(m, rng, i):
    """the running best ten over many epochs"""
    import torch
    from kd.model import KD_EqGPT
    from kd.model.eqgpt.continue_train_GPT_all import find_min_no_repeat
    samples = int(rng.integers(1, 30))
    levels = rng.choice(np.concatenate([rng.normal(size=6), [0.0, 0.0, 1.0]]), 40) if rng.random() < 0.5 else rng.normal(size=400)
    award = sent = None
    seen = {}
    for epoch in range(int(rng.integers(1, 7))):
        r = torch.tensor(rng.choice(levels, samples), dtype=torch.float32)
        s = [[6, 2, 7 + int(rng.integers(40)), 2, epoch, k, 1] for k in range(samples)]
        for v, k in zip(r.tolist(), s):
            seen.setdefault(v, []).append(list(k))
        award, sent = KD_EqGPT._update_top10(epoch, r, s, award, sent, find_min_no_repeat, samples)
        want = sorted(seen, reverse=True)[:10]
        label = f"epoch {epoch} of {samples}"
        m.check(list(award) == want, "best-ten", lambda: f"{label}: {award} instead of {want}")
        m.check(len(sent) == len(award) and all(list(k) in seen[v] for v, k in zip(award, sent)), "sentences-of-these-rewards", label)
        if list(award) != want:
            return
    m.saw("merge")
    m.distinct(("merge", i, tuple(award)))


@workload(quick=16, thorough=120, timeout=120)
def model(m, rng, i):
    """sampling and training of the language model"""
    import random, torch
    K, T, G = modules()
    weights()
    id2word, w2i = vocab()
    torch.manual_seed(int(rng.integers(1 << 20)))
    net = G.GPT()
    net.eval()
    n = int(rng.integers(3, 20))
    a = torch.tensor(rng.integers(1, len(id2word), (2, n)))
    k = int(rng.integers(1, n))
    with torch.no_grad():
        full = net(a)[0].reshape(2, n, -1)
        b = a.clone()
        b[:, k:] = torch.tensor(rng.integers(1, len(id2word), (2, n - k)))
        m.check(torch.allclose(net(b)[0].reshape(2, n, -1)[:, :k], full[:, :k], atol=1e-4), "later-words-do-not-matter", f"{n} {k}")
        pad = torch.cat([a, torch.zeros(2, 3, dtype=a.dtype)], 1)
        m.check(torch.allclose(net(pad)[0].reshape(2, n + 3, -1)[:, :n], full, atol=1e-4), "padding-does-not-matter", f"{n}")
    m.saw("causal")
    # batches for training
    datas = [[w2i["S"]] + [int(v) for v in rng.integers(2, 50, int(rng.integers(1, 12)))] + [w2i["E"]] for _ in range(int(rng.integers(1, 6)))]
    keep = copy.deepcopy(datas)
    for cls in (T.MyDataSet, G.MyDataSet):
        ds = cls(datas)
        x, y = ds.padding_batch([ds[j] for j in range(len(datas))])
        m.check(datas == keep, "training-data-unchanged", "")
        for row, (p, q) in zip(datas, zip(x.tolist(), y.tolist())):
            L = len(row) - 1
            m.check(p[:L] == row[:-1] and q[:L] == row[1:] and not any(p[L:]) and not any(q[L:]), "next-word-pairs", f"{row}: {p} {q}")
    # sampling
    mask = T.get_mask_invalid(["t", "x"])
    random.seed(int(rng.integers(1 << 20)))
    np.random.seed(int(rng.integers(1 << 20)))
    for _ in range(40):
        s = [w2i["S"], w2i["ut"], w2i["+"]] + [7, 2] * int(rng.integers(0, 20)) + ([7] if rng.random() < 0.5 else [])
        with torch.no_grad():
            w, p = net.step(list(s), mask)
        word = id2word[int(w)]
        want_op = len(s) % 2 == 0
        m.check((word in ("E", "+", "*", "/")) == want_op, "right-kind", f"{len(s)}: {word}")
        m.check(float(mask[int(w)]) == 1 and word not in ("S", "<pad>"), "allowed", f"{len(s)}: {word}")
        m.check(abs(float(p.sum()) - 1) < 1e-4, "a-distribution", f"{float(p.sum())}")
        m.saw("step")
    # training towards given sentences makes them likelier
    target = [[w2i["S"], 6, 2, 8, 2, 20, w2i["E"]]] * 2
    ds = T.MyDataSet([list(t) for t in target])
    import torch.utils.data as Data
    loader = Data.DataLoader(ds, batch_size=2, collate_fn=ds.padding_batch)
    crit, opt = torch.nn.CrossEntropyLoss(ignore_index=0), torch.optim.Adam(net.parameters(), lr=1e-4)
    with R.quiet():
        losses = [float(T.train_step(net, loader, opt, crit, 1)) for _ in range(6)]
    with torch.no_grad():
        seq = torch.tensor([target[0]])
        now = float(crit(net(seq[:, :-1])[0], seq[0, 1:]))
    m.check(now < losses[0] and losses[-1] < losses[0], "training-helps", f"{losses} {now}")
    m.distinct(("model", i, n, k))
