"""V02: the plotting calls write where they are told, and say so when there is nothing to draw."""
import abc, contextlib, io, os, pathlib, sys, types
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R
from vkit import disc_ref as D
from vkit import dlga_ref as G
from vkit import viz_ref as Z

PROPERTY = "V02"
RULE = "distinct (model, intent, place), refusals, style settings, registry histories and data contracts whose outcome was compared with the specification"
REQUIRE = {"placed": 150, "refused": 150, "style": 60, "registry-lookup": 400, "contract": 300, "contract-refused": 300, "slice": 50, "printed": 80}
ASSUME = ["file names are not specified, only their folder and that two kinds of figure do not share a file"]
CROSS = ["equation", "field_comparison", "time_slices", "parity", "residual", "search_evolution", "density", "tree", "training_curve",
         "validation_curve", "optimization", "derivative_relationships", "spr_residual", "spr_field_comparison", "nonsense", "", "Equation"]


def ask(kind, model, options, show):
    """through the named helper where there is one, else through render()"""
    from kd import viz as V
    from kd.viz.core import VizRequest, render
    fn = {"training_curve": V.plot_training_curve, "validation_curve": V.plot_validation_curve, "search_evolution": V.plot_search_evolution,
          "optimization": V.plot_optimization, "equation": V.render_equation, "parity": V.plot_parity,
          "derivative_relationships": V.plot_derivative_relationships, "residual": V.plot_residuals, "field_comparison": V.plot_field_comparison,
          "time_slices": V.plot_time_slices}.get(kind)
    if fn is None or show is None:
        return render(VizRequest(kind=kind, target=model, options=dict(options)))
    need = {"residual": ("actual", "predicted"), "field_comparison": ("t_coords", "true_field", "predicted_field"),
            "time_slices": ("t_coords", "true_field", "predicted_field")}.get(kind, ())
    return fn(model, show_info=show, **{**{k: None for k in need}, **options})


class Stub:
    def __init__(self, **kw):
        pass

    def fit(self, X, y, **kw):
        self.w = np.linalg.lstsq(np.asarray(X, dtype=float), np.asarray(y, dtype=float).ravel(), rcond=None)[0]
        return self

    def predict(self, X, *a, **k):
        return np.asarray(X, dtype=float) @ self.w

    def latex(self, *a, **k):
        return "x_{0} + 2"

    def get_best(self):
        return {"equation": "x0 + 2"}


@contextlib.contextmanager
def pysr():
    import kd.model.kd_pysr as K
    back = K._PySRRegressor, sys.modules.get("pysr")
    fake = types.ModuleType("pysr")
    fake.PySRRegressor = Stub
    sys.modules["pysr"], K._PySRRegressor = fake, None
    try:
        yield K.KD_PySR
    finally:
        K._PySRRegressor = back[0]
        if back[1] is None:
            sys.modules.pop("pysr", None)
        else:
            sys.modules["pysr"] = back[1]


def sga(rng, fit):
    from kd.model.kd_sga import KD_SGA
    from kd.dataset import PDEDataset
    mod = KD_SGA(num=3, depth=2, width=2, sga_run=1, seed=int(rng.integers(100)))
    if fit:
        x, t = R.axis_values(rng, 12), R.axis_values(rng, 11)
        u = R.smooth_field(rng, list(np.meshgrid(x, t, indexing="ij")))
        with R.quiet():
            mod.fit_dataset(PDEDataset(equation_name="w", x=x, t=t, usol=u))
    return mod, {}


def dlga(rng, fit):
    mod, ops = G.make_model(rng)
    if not fit:
        return mod, {}
    shape = (5, 6)
    names = list(dict.fromkeys(ops + ["u_t", "u"]))
    mod.metadata = {n: rng.normal(size=shape) for n in names}
    mod.Chrom = [[sorted(int(g) for g in rng.integers(0, len(ops), 2)) for _ in range(int(rng.integers(1, 4)))] for _ in range(3)]
    mod.coef = [rng.normal(size=(len(c), 1)) for c in mod.Chrom]
    mod.name = ["u_t"] * 3
    mod.eq_latex = "u_t = u_x"
    mod.train_loss_history = [3.0, 2.0, 1.0]
    mod.val_loss_history = [3.0, 2.5]
    mod.evolution_history = [dict(fitness=2.0, complexity=3, population_size=5, unique_modules=4), dict(fitness=1.0, complexity=2, population_size=5, unique_modules=3)]
    x, t = R.axis_values(rng, 5), R.axis_values(rng, 6)
    f = rng.normal(size=shape)
    given = dict(x_coords=x, t_coords=t, true_field=f, predicted_field=f + 1, slice_times=t[:2])
    return mod, {"field_comparison": given, "time_slices": given, "residual": dict(actual=rng.normal(size=9), predicted=rng.normal(size=9))}


def discover(rng, fit):
    import checks.d06_repeat as Q
    s = Q.spec(rng)
    ds, env, meta = D.gen_problem(rng, s["dim"], params=s["params"])
    with R.quiet():
        mod = Q.make(s)
        if fit or rng.random() < 0.5:
            mod.import_dataset(ds)
        if fit:
            mod.train(n_epochs=1, verbose=False)
    return mod, {}


def sr(rng, fit, cls):
    mod = cls(niterations=1)
    if fit:
        X = rng.normal(size=(12, 2))
        with R.quiet():
            mod.fit(X, X @ [1.0, 2.0])
    return mod, {}


MAKERS = [("sga", sga), ("dlga", dlga), ("discover", discover), ("pysr", sr)]


def build(rng, k, fit, stack):
    name, mk = MAKERS[k % 4]
    if name == "pysr":
        mod, given = mk(rng, fit, stack.enter_context(pysr()))
    else:
        mod, given = mk(rng, fit)
    return name, mod, given


HELPERS = {"training_curve", "validation_curve", "search_evolution", "optimization", "equation", "parity", "derivative_relationships", "residual", "field_comparison", "time_slices"}


def printed(m, st, kind, r, show, label):
    if kind not in HELPERS:
        return
    said = [l for l in st.printed.splitlines() if "kd.viz" in l]
    if show:
        m.saw("printed")
        want = r.warnings or [str(p) for p in r.paths]
        m.check(len(said) == 1 and kind in said[0] and all(w in st.printed for w in want) and ("warning" in said[0]) == bool(r.warnings),
                "outcome-printed", f"{label}: {said} for {want}")
    else:
        m.check(not said, "quiet-when-asked", f"{label}: {said}")


@workload(quick=96, thorough=900, timeout=150)
def places(m, rng, i):
    """files end up under the folder asked for"""
    from kd import viz as V
    from kd.viz.core import list_capabilities
    with contextlib.ExitStack() as stack:
        name, mod, given = build(rng, i, True, stack)
        st = stack.enter_context(Z.Studio())
        kinds = sorted(list_capabilities(mod))
        m.check(len(kinds) >= 3, "capabilities", f"{name}: {kinds}")
        owners = {}
        for step in range(5):
            if rng.random() < 0.5:
                V.configure(save_dir=[os.path.join(st.tmp, "conf%d" % rng.integers(3)), "rel/conf", pathlib.Path(st.tmp) / "p" / "q"][int(rng.integers(3))])
            conf = V.configure().save_dir
            kind = str(rng.choice([k for k in kinds if not k.startswith("spr")]))
            o = dict(given.get(kind, {}))
            if rng.random() < 0.5:
                o["output_dir"] = [os.path.join(st.tmp, "o%d" % rng.integers(2)), "here", pathlib.Path(st.tmp) / "a" / "b" / "c", os.path.join(st.tmp, "with space")][int(rng.integers(4))]
            base = os.path.realpath(o["output_dir"] if "output_dir" in o else conf if conf is not None else os.getcwd())
            show = [True, False, None][int(rng.integers(3))]
            label = f"{name} {kind} output_dir={o.get('output_dir')} save_dir={conf}"
            if rng.random() < 0.2 and base != os.path.realpath(st.cwd):
                os.makedirs(base, exist_ok=True)
            before = Z.listing(st.tmp)
            r = st.call(m, label, lambda mm, **k: ask(kind, mm, k, show), mod, **o)
            m.check(r.intent == kind, "result-names-its-intent", f"{label}: {r.intent}")
            if show is not None:
                printed(m, st, kind, r, show, label)
            if not r.paths:
                m.check(bool(r.warnings), "nothing-drawn-is-said", label)
                m.saw("undrawn")
                continue
            for p in r.paths:
                q = os.path.realpath(str(p))
                m.check(os.path.dirname(q) == os.path.join(base, name), "written-under-the-folder", f"{label}: {p}")
                m.check(owners.setdefault(os.path.basename(q), kind) == kind, "one-file-per-figure", f"{label}: {os.path.basename(q)} is also {owners.get(os.path.basename(q))}")
            m.check(len(set(map(str, r.paths))) == len(r.paths), "one-file-per-figure", f"{label}: {r.paths}")
            m.check(r.has_content, "result-has-content", label)
            m.saw("placed")
            m.distinct((name, kind, str(o.get("output_dir"))[-4:], str(conf)[-4:]))


def refused(m, st, kind, mod, o, show, label, may_raise=()):
    try:
        r = st.call(m, label, lambda mm, **k: ask(kind, mm, k, show), mod, **o)
    except may_raise:
        m.saw("raised")
        return None
    m.check(not r.paths and r.figure is None and not r.has_content, "refusal-draws-nothing", f"{label}: {r.paths}")
    m.check(len(r.warnings) >= 1 and all(isinstance(w, str) and w.strip() for w in r.warnings), "refusal-is-explained", f"{label}: {r.warnings}")
    m.check(r.intent == kind, "result-names-its-intent", f"{label}: {r.intent}")
    if show is not None:
        printed(m, st, kind, r, show, label)
    m.saw("refused")
    m.distinct((label, kind))
    return r


class Odd:
    pass


@workload(quick=48, thorough=500, timeout=150)
def refusals(m, rng, i):
    """models without results, kinds they do not know, incomplete data"""
    from kd.viz.core import list_capabilities
    with contextlib.ExitStack() as stack:
        what = i % 8
        st = None
        if what < 4:
            name, mod, _ = build(rng, what, False, stack)
            st = stack.enter_context(Z.Studio())
            for kind in list_capabilities(mod):
                refused(m, st, kind, mod, {}, [True, False, None][int(rng.integers(3))], f"{name} untrained {kind}")
            known = set(list_capabilities(mod))
            for kind in CROSS:
                if kind not in known:
                    refused(m, st, kind, mod, {}, [True, None][int(rng.integers(2))], f"{name} cannot {kind!r}")
        elif what == 4:
            st = stack.enter_context(Z.Studio())
            for t in (None, 3, "SGA", Odd(), [], {"u": 1}, np.zeros(3)):
                m.check(list(list_capabilities(t)) == [], "no-capabilities-for-strangers", repr(t)[:40])
                for kind in rng.choice(CROSS[:-3], 3, replace=False):
                    refused(m, st, str(kind), t, {}, [True, None][int(rng.integers(2))], f"stranger {type(t).__name__} {kind}")
        elif what == 5:
            mod, given = dlga(rng, True)
            st = stack.enter_context(Z.Studio())
            broken = dict(evolution_history=[], train_loss_history=[], val_loss_history=[], Chrom=[], coef=None, name=None, metadata=None)
            uses = {"evolution_history": ["search_evolution", "optimization"], "train_loss_history": ["training_curve"], "val_loss_history": ["validation_curve"],
                    "Chrom": ["parity", "derivative_relationships", "equation"], "coef": ["parity", "derivative_relationships", "equation"],
                    "name": ["parity", "derivative_relationships", "equation"], "metadata": ["parity", "derivative_relationships"]}
            for attr, v in broken.items():
                keep = getattr(mod, attr)
                setattr(mod, attr, v)
                for kind in uses[attr]:
                    refused(m, st, kind, mod, {}, None, f"dlga without {attr}: {kind}")
                setattr(mod, attr, keep)
            for kind in ("field_comparison", "time_slices", "residual"):
                for drop in given[kind]:
                    if drop == "slice_times":
                        continue
                    o = {k: v for k, v in given[kind].items() if k != drop}
                    refused(m, st, kind, mod, o, None, f"dlga {kind} without {drop}", (ValueError, TypeError))
                o = dict(given[kind])
                bad = str(rng.choice([k for k in o if k != "slice_times"]))
                o[bad] = np.asarray(o[bad])[:-1]
                refused(m, st, kind, mod, o, None, f"dlga {kind} with a shorter {bad}", (ValueError,))
        elif what == 6:
            # an equation matplotlib cannot typeset
            latex = str(rng.choice([r"\begin{cases} u \\ v \end{cases}", r"\frac{u", r"\notacommand{u}", r"u_{t_{"]))
            for name in ("sga", "pysr"):
                _, mod, _ = build(rng, [k for k, _ in MAKERS].index(name), True, stack)
                mod.equation_latex = lambda *a, **k: latex
                with Z.Studio() as st:
                    # an older picture stays, and is not passed off as this one's
                    o = {"output_dir": os.path.join(st.tmp, "out")}
                    refused(m, st, "equation", mod, o, None, f"{name} with {latex}")
            mod, _ = dlga(rng, True)
            with Z.Studio() as st:
                refused(m, st, "equation", mod, {"font_size": "nonsense"}, None, "dlga in a font size that is none")
                refused(m, st, "equation", mod, {"solution_index": int(rng.integers(3, 9))}, None, "dlga's solution that is not there")
        else:
            # sparse figures of a model without a network, plain figures of a sparse one
            mod, _ = discover(rng, True)
            st = stack.enter_context(Z.Studio())
            for kind in ("spr_residual", "spr_field_comparison"):
                refused(m, st, kind, mod, {}, None, f"plain discover {kind}")
            h, t = mod.searcher.r_history, mod.searcher.r_train
            mod.searcher.r_history, mod.searcher.r_train = [], []
            for kind in ("density", "search_evolution"):
                refused(m, st, kind, mod, {}, None, f"discover without rewards {kind}")
            mod.searcher.r_history, mod.searcher.r_train = h, t
            refused(m, st, "density", mod, {"epoches": [len(h) + 3]}, None, "discover density of an epoch that is not there")


# ------------------------------------------------------------------ style
GOOD = {"font.size": lambda g: float(g.integers(5, 20)), "lines.linewidth": lambda g: float(g.integers(1, 6)), "axes.grid": lambda g: bool(g.integers(2)),
        "savefig.dpi": lambda g: int(g.integers(20, 200)), "image.cmap": lambda g: str(g.choice(["viridis", "gray", "jet"])), "axes.labelsize": lambda g: float(g.integers(4, 20)),
        "legend.frameon": lambda g: bool(g.integers(2)), "xtick.labelsize": lambda g: float(g.integers(4, 20)), "axes.titlesize": lambda g: float(g.integers(4, 20))}
DEFAULTS = {"font.size": 12, "figure.titlesize": 14, "axes.labelsize": 12, "xtick.labelsize": 10, "ytick.labelsize": 10, "savefig.dpi": 300, "savefig.bbox": "tight"}


def some(rng, n=4):
    return {k: GOOD[k](rng) for k in rng.choice(sorted(GOOD), int(rng.integers(0, n)), replace=False)}


@workload(quick=120, thorough=1500)
def styles(m, rng, i):
    """during a call the configured style and the call's own apply; afterwards the session's settings are back"""
    import matplotlib
    from kd import viz as V
    from kd.viz import registry as G_
    from kd.viz.core import VizRequest, VizResult, render
    seen = []

    class Model:
        pass

    class Adapter:
        capabilities = {"look", "fail", "nest"}

        def render(self, request, ctx):
            seen.append(({k: matplotlib.rcParams[k] for k in matplotlib.rcParams if k != "backend"}, ctx.backend, ctx))
            if request.kind == "fail":
                matplotlib.rcParams["font.size"] = 77.0
                raise RuntimeError("adapter")
            if request.kind == "nest":
                inner = request.options["inner"]
                render(VizRequest("look", request.target, {"style": inner}))
                seen.append(({k: matplotlib.rcParams[k] for k in matplotlib.rcParams if k != "backend"}, ctx.backend, ctx))
                matplotlib.rcParams["lines.linewidth"] = 9.25
            return VizResult(intent=request.kind)
    with Z.Studio():
        G_.register_adapter(Model, Adapter())
        try:
            conf = dict(DEFAULTS)
            for _ in range(int(rng.integers(2, 7))):
                op = rng.choice(["configure", "session", "look", "fail", "bad", "nest", "other"])
                if op == "configure":
                    new = some(rng)
                    got = V.configure(style=new)
                    conf = {**DEFAULTS, **new}
                    m.check(got.style == conf, "configured-style", f"{new}: {got.style}")
                    new["font.size"] = -5           # the caller's dictionary stays the caller's
                elif op == "other":
                    d = str(rng.choice(["a", "b/c"]))
                    got = V.configure(save_dir=d)
                    m.check(got.save_dir == pathlib.Path(d) and got.style == conf, "configured-folder", f"{d}: {got}")
                    got = V.configure()
                    m.check(got.save_dir == pathlib.Path(d) and got.style == conf, "configure-keeps-what-is-not-given", f"{d}: {got}")
                elif op == "session":
                    for k, v in some(rng, 3).items():
                        matplotlib.rcParams[k] = v
                else:
                    own = some(rng, 3)
                    given = dict(own)
                    before = {k: matplotlib.rcParams[k] for k in matplotlib.rcParams if k != "backend"}
                    seen.clear()
                    o = {"style": own} if own or rng.random() < 0.5 else {}
                    if op == "bad":
                        o["style"] = {**own, **[{"no.such.key": 1}, {"lines.linewidth": "wide"}, {"font.size": "wide"}][int(rng.integers(3))]}
                        given = dict(o["style"])
                    kind = "look" if op == "bad" else str(op)
                    if op == "nest":
                        o["inner"] = some(rng, 3)
                    label = f"{op} {o} under {conf}"
                    try:
                        r = render(VizRequest(kind, Model(), o))
                        m.check(op in ("look", "nest") or bool(r.warnings), "failure-is-not-silent", label)
                    except Exception as e:
                        m.check(op in ("fail", "bad"), "style-accepted", f"{label}: {e}")
                    after = {k: matplotlib.rcParams[k] for k in matplotlib.rcParams if k != "backend"}
                    d = [k for k in before if before[k] != after[k]]
                    m.check(not d and set(after) == set(before), "style-restored", lambda: f"{label}: {[(k, before[k], after[k]) for k in d][:3]}")
                    m.check(o.get("style", {}) == (given if "style" in o else {}), "style-option-unchanged", label)
                    if op in ("look", "fail"):
                        want = {**conf, **own}
                        if m.check(len(seen) == 1, "adapter-called-once", label):
                            rc = seen[0][0]
                            bad = [k for k in before if rc[k] != (want[k] if k in want else before[k]) and not (k in want and str(rc[k]) == str(want[k]))]
                            m.check(not bad, "style-applies", lambda: f"{label}: {[(k, rc[k], want.get(k, before[k])) for k in bad][:3]}")
                    if op == "nest" and m.check(len(seen) == 3, "adapter-called-once", label):
                        m.check(seen[0][0] == seen[2][0], "style-restored", f"{label}: inside")
                        want = {**{k: v for k, v in seen[0][0].items()}, **conf, **o["inner"]}
                        rc = seen[1][0]
                        bad = [k for k in want if rc[k] != want[k] and str(rc[k]) != str(want[k])]
                        m.check(not bad, "style-applies", lambda: f"{label} inner: {[(k, rc[k], want[k]) for k in bad][:3]}")
                    if op != "bad":
                        m.check(V.configure().style == conf, "configured-style", f"{label}: {V.configure().style}")
                m.saw("style")
                m.distinct((str(op), i, str(conf)))
        finally:
            G_.unregister_adapter(Model)
            matplotlib.rcParams.update(matplotlib.rcParamsDefault)
            matplotlib.use("agg", force=True)


# ------------------------------------------------------------------ registry
@workload(quick=120, thorough=1500)
def registries(m, rng, i):
    """which adapter answers for a class: the one of its nearest registered ancestor"""
    from kd.viz import registry as T
    from kd.viz.adapters import register_default_adapters
    from kd.viz.core import list_capabilities
    n = int(rng.integers(3, 8))
    classes = []
    for k in range(n):
        for _ in range(5):
            bases = tuple(classes[j] for j in sorted({int(v) for v in rng.integers(0, k, int(rng.integers(0, 3)))}, reverse=True)) if k else ()
            try:
                classes.append(type(f"K{k}", bases or (object,), {}))
                break
            except TypeError:
                continue
        else:
            classes.append(type(f"K{k}", (object,), {}))
    Iface = abc.ABCMeta("Iface", (), {})
    virtual = [c for c in classes if rng.random() < 0.2]
    for c in virtual:
        Iface.register(c)
    pool = classes + [Iface]
    eager, lazy, calls = {}, {}, []

    def adapter(tag):
        return types.SimpleNamespace(capabilities=(f"cap{tag}",), render=None)

    def expect(c):
        for k in c.__mro__:
            if k not in eager and k.__name__ in lazy:
                res = lazy.pop(k.__name__)
                if res is not None:
                    eager[res[0]] = res[1]
            if k in eager:
                return [eager[k]]
        return [a for k, a in eager.items() if issubclass(c, k)] or [None]
    trail = []
    try:
        T.clear_registry()
        for step in range(int(rng.integers(5, 30))):
            op = rng.choice(["register", "lazy", "unregister", "get", "get", "get", "caps"])
            c = pool[int(rng.integers(len(pool)))]
            trail.append(f"{op} {c.__name__}")
            if op == "register":
                eager[c] = adapter(step)
                T.register_adapter(c, eager[c])
            elif op == "lazy":
                res = None if rng.random() < 0.15 else (c, adapter(step))
                lazy[c.__name__] = res
                T.register_lazy_adapter(c.__name__, lambda res=res, c=c: (calls.append(c.__name__), res or (None, None))[1])
            elif op == "unregister":
                eager.pop(c, None)
                lazy.pop(c.__name__, None)
                T.unregister_adapter(c)
            else:
                pending = set(lazy)
                calls.clear()
                want = expect(c)
                inst = c() if rng.random() < 0.6 else c
                if op == "get":
                    got = T.get_adapter(inst)
                    m.check(any(got is a for a in want), "nearest-adapter", lambda: f"{trail}: {getattr(got, 'capabilities', None)} instead of {[getattr(a, 'capabilities', None) for a in want]} (order {[k.__name__ for k in c.__mro__]})")
                else:
                    got = tuple(list_capabilities(inst))
                    m.check(got in [tuple(a.capabilities) if a else () for a in want], "nearest-adapter", f"{trail}: {got}")
                m.check(sorted(calls) == sorted(pending - set(lazy)), "lazy-adapters-load-when-needed", f"{trail}: loaded {calls} instead of {pending - set(lazy)}")
                m.saw("registry-lookup")
        m.check(T.get_adapter(None) is None, "nearest-adapter", "None")
        m.check({k for k, _ in T.iter_registered()} == set(eager) and all(eager[k] is a for k, a in T.iter_registered()), "registered-list", f"{trail}")
        m.distinct(tuple(trail))
    finally:
        T.clear_registry()
        register_default_adapters()


@workload(quick=8, thorough=40)
def defaults(m, rng, i):
    """the package's own models, and subclasses of them, have their adapters"""
    from kd.viz import registry as T
    from kd.viz.core import list_capabilities
    import kd.model as M
    from kd.model.kd_discover import KD_Discover_SPR
    with pysr() as K:
        for cls, word in ((M.KD_SGA, "sga"), (M.KD_DLGA, "dlga"), (M.KD_Discover, "discover"), (KD_Discover_SPR, "discover"), (K, "pysr")):
            sub = type("Mine", (cls,), {})
            subsub = type("Mine2", (Odd, sub), {})
            a = [T.get_adapter(c) for c in ((subsub, sub, cls) if i % 2 else (cls, sub, subsub))]
            m.check(all(x is not None and word in type(x).__name__.lower() for x in a), "own-models-have-adapters", f"{cls.__name__}: {[type(x).__name__ for x in a]}")
            m.check(set(list_capabilities(cls)) == set(list_capabilities(subsub)) and "equation" in list_capabilities(cls), "own-models-have-adapters", cls.__name__)
            m.saw("registry-lookup")
    m.distinct(i)


# ------------------------------------------------------------------ data contracts
def arr(rng, shape):
    a = rng.normal(size=shape)
    return a if rng.random() < 0.6 else a.tolist() if rng.random() < 0.7 else a.astype(np.float32)


def resize(rng, a):
    """the same values in another, incompatible shape"""
    a = np.asarray(a)
    return a[:-1] if rng.random() < 0.5 and a.shape[0] > 1 else np.concatenate([a, a[:1]])


@workload(quick=600, thorough=6000)
def contracts(m, rng, i):
    """the records figures are drawn from hold what they were given and refuse what does not fit"""
    from kd.viz import core as C
    from kd.viz import _contracts as K
    kind = ["residual", "history", "field", "slices", "terms", "parity", "reward"][i % 7]
    n = int(rng.integers(2, 12))
    label = f"{kind} {n}"

    def same(got, want, what):
        m.check(np.shape(got) == np.shape(want) and np.array_equal(np.asarray(got), np.asarray(want)), "record-keeps-values", f"{label}: {what}")

    def refuse(fn, what):
        m.saw("contract-refused")
        m.raises(ValueError, fn, "record-refuses-mismatch", f"{label}: {what}")
    if kind == "residual":
        shape = (n,) if rng.random() < 0.6 else (n, int(rng.integers(1, 4)))
        a, p = arr(rng, shape), arr(rng, shape)
        co = None if rng.random() < 0.4 else arr(rng, (n, 2))
        r = C.ResidualPlotData.from_actual_predicted(a, p, input_coordinates=co)
        same(r.actual, a, "actual"), same(r.predicted, p, "predicted")
        m.close(r.residuals, np.asarray(a, dtype=float) - np.asarray(p, dtype=float), "residual-is-actual-minus-predicted", rtol=1e-5, atol=1e-6, msg=label)
        if co is None:
            m.check(r.input_coordinates is None, "record-keeps-values", label)
        else:
            same(r.input_coordinates, co, "coordinates")
        res = np.asarray(r.residuals)
        refuse(lambda: C.ResidualPlotData(a, resize(rng, p), res), "predicted")
        refuse(lambda: C.ResidualPlotData(a, p, resize(rng, res)), "residuals")
        refuse(lambda: C.ResidualPlotData(a, p, res, input_coordinates=resize(rng, arr(rng, (n, 2)))), "coordinates")
    elif kind == "history":
        s, o = np.arange(n), arr(rng, n)
        extra = {k: (arr(rng, n) if rng.random() < 0.6 else None) for k in ("complexity", "population_size", "unique_modules")}
        r = C.OptimizationHistoryData(steps=s, objective=o, **extra)
        same(r.steps, s, "steps"), same(r.objective, o, "objective")
        for k, v in extra.items():
            got = getattr(r, k)
            m.check(got is None, "record-keeps-values", f"{label}: {k}") if v is None else same(got, v, k)
        refuse(lambda: C.OptimizationHistoryData(steps=s, objective=resize(rng, o)), "objective")
        k = str(rng.choice(sorted(extra)))
        refuse(lambda: C.OptimizationHistoryData(steps=s, objective=o, **{k: resize(rng, arr(rng, n))}), k)
    elif kind in ("field", "slices"):
        dims = int(rng.integers(1, 5 if kind == "field" else 4))
        sp = [np.sort(rng.normal(size=int(rng.integers(2, 6)))) for _ in range(dims)]
        t = np.sort(rng.normal(size=int(rng.integers(2, 6))))
        shape = tuple(len(a) for a in sp) + (len(t),)
        tf, pf = rng.normal(size=shape), rng.normal(size=shape)
        if dims == 1:
            form = int(rng.integers(4))
            axes = dict(spatial_coords=[sp[0], [sp[0]], sp[0].tolist()][form]) if form < 3 else dict(x_coords=sp[0])
        else:
            axes = dict(spatial_coords=sp if rng.random() < 0.5 else tuple(a.tolist() for a in sp))
        cls = C.FieldComparisonData if kind == "field" else C.TimeSliceComparisonData
        st = rng.uniform(t.min(), t.max(), int(rng.integers(1, 4)))
        st = np.append(st, [t.min(), t.max()]) if rng.random() < 0.5 else st
        extra = {} if kind == "field" else dict(slice_times=st)
        rf = rng.normal(size=shape) if kind == "field" and rng.random() < 0.4 else None
        if rf is not None:
            extra["residual_field"] = rf
        mk = lambda **k: cls(**{**axes, "t_coords": t, "true_field": tf, "predicted_field": pf, **extra, **k})
        r = mk()
        m.check(r.n_spatial_dims == dims and len(r.spatial_coords) == dims, "record-keeps-values", f"{label}: {r.n_spatial_dims} dims")
        for g, w in zip(r.spatial_coords, sp):
            same(g, w, "axis")
        same(r.x_coords, sp[0], "x"), same(r.t_coords, t, "t"), same(r.true_field, tf, "true"), same(r.predicted_field, pf, "predicted")
        if kind == "field":
            m.close(r.residual_field, tf - pf if rf is None else rf, "residual-is-actual-minus-predicted", msg=label)
        else:
            same(r.slice_times, st, "slice times")
            off = 1e-3 + abs(rng.normal())
            for bad in (t.min() - off, t.max() + off):
                refuse(lambda: mk(slice_times=np.append(st, bad)), f"slice at {bad} outside [{t.min()}, {t.max()}]")
        refuse(lambda: mk(predicted_field=resize(rng, pf)), "predicted")
        refuse(lambda: mk(true_field=resize(rng, tf), predicted_field=resize(rng, tf)) if False else mk(true_field=tf[..., :-1], predicted_field=pf[..., :-1]), "fields without the last time")
        refuse(lambda: mk(t_coords=np.append(t, t[-1] + 1)), "times")
        if len(set(shape)) > 1:
            tr = tuple(range(len(shape)))[::-1]
            if tuple(shape[k] for k in tr) != shape:
                refuse(lambda: mk(true_field=tf.transpose(tr), predicted_field=pf.transpose(tr)), "transposed fields")
        if kind == "field":
            refuse(lambda: mk(residual_field=resize(rng, tf)), "residual")
            m.raises(TypeError, lambda: cls(t_coords=t, true_field=tf, predicted_field=pf), "record-refuses-mismatch", "no axes")
            if dims >= 3:
                section(m, rng, K, r, sp, t, tf, pf, np.asarray(r.residual_field), label)
    elif kind == "terms":
        y = arr(rng, (n,) if rng.random() < 0.5 else (n, 1))
        ts = [K.TermContribution(label=f"t{k}", values=arr(rng, (n,) if rng.random() < 0.5 else (1, n)), coefficient=float(rng.normal())) for k in range(int(rng.integers(1, 5)))]
        r = C.TermRelationshipData(lhs_values=y, lhs_label="u_t", terms=ts)
        same(r.lhs_values, np.asarray(y).reshape(-1), "lhs")
        m.check([t.label for t in r.terms] == [t.label for t in ts] and r.lhs_label == "u_t", "record-keeps-values", label)
        refuse(lambda: C.TermRelationshipData(lhs_values=y, lhs_label="u_t", terms=[]), "no terms")
        j = int(rng.integers(len(ts)))
        bad = list(ts)
        bad[j] = K.TermContribution(label="b", values=resize(rng, np.asarray(ts[j].values).ravel()), coefficient=1.0)
        refuse(lambda: C.TermRelationshipData(lhs_values=y, lhs_label="u_t", terms=bad), f"term {j} of {len(ts)}")
    elif kind == "parity":
        shape = (n,) if rng.random() < 0.5 else (n, int(rng.integers(1, 4)))
        a, p = arr(rng, shape), arr(rng, shape)
        r = C.ParityPlotData.from_actual_predicted(a, p)
        same(r.actual_values, np.asarray(a).reshape(-1), "actual"), same(r.predicted_values, np.asarray(p).reshape(-1), "predicted")
        m.close(r.residuals, (np.asarray(a, dtype=float) - np.asarray(p, dtype=float)).reshape(-1), "residual-is-actual-minus-predicted", rtol=1e-5, atol=1e-6, msg=label)
        refuse(lambda: C.ParityPlotData(a, resize(rng, p), r.residuals), "predicted")
        refuse(lambda: C.ParityPlotData(a, p, resize(rng, r.residuals)), "residuals")
    else:
        s, b = np.arange(n), arr(rng, n)
        extra = {k: (arr(rng, n) if rng.random() < 0.6 else None) for k in ("max_reward", "mean_reward")}
        r = C.RewardEvolutionData(steps=s, best_reward=b, **extra)
        same(r.steps, s, "steps"), same(r.best_reward, b, "best")
        for k, v in extra.items():
            got = getattr(r, k)
            m.check(got is None, "record-keeps-values", f"{label}: {k}") if v is None else same(got, v, k)
        refuse(lambda: C.RewardEvolutionData(steps=s, best_reward=resize(rng, b)), "best")
        k = str(rng.choice(sorted(extra)))
        refuse(lambda: C.RewardEvolutionData(steps=s, best_reward=b, **{k: resize(rng, arr(rng, n))}), k)
    m.saw("contract")
    m.distinct((kind, i, n))


def section(m, rng, K, r, sp, t, tf, pf, rf, label):
    """three and more space axes are reduced to two, the way the documentation says"""
    from checks.v01_figures import cut
    for _ in range(3):
        k = {}
        if rng.random() < 0.7:
            k["slice_axis"] = int(rng.integers(-len(sp) - 1, len(sp) + 2))
        if rng.random() < 0.7:
            k["slice_index"] = int(rng.integers(-2, 9))
        before = [a.copy() for a in (tf, pf, rf)]
        got = K.slice_3d_to_2d(r, **k)
        ax, want = cut(sp, [tf, pf, rf], k.get("slice_axis", -1), k.get("slice_index"))
        ok = got.n_spatial_dims == 2 and all(np.array_equal(a, b) for a, b in zip(got.spatial_coords, ax)) and np.array_equal(got.t_coords, t)
        m.check(ok, "section-axes", f"{label} {k}: {[len(a) for a in got.spatial_coords]} of {[len(a) for a in sp]}")
        for g, w, n in zip((got.true_field, got.predicted_field, got.residual_field), want, ("true", "predicted", "residual")):
            m.check(np.array_equal(g, w), "section-values", f"{label} {k}: {n}")
        m.check(all(np.array_equal(a, b) for a, b in zip(before, (r.true_field, r.predicted_field, r.residual_field))), "section-leaves-the-data", label)
        m.saw("slice")
