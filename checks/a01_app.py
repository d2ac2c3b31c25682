"""A01: the web page trains what its form shows, where it may, and reports what happened."""
import contextlib, importlib, io, json, os, shutil, sys, tempfile, types
import numpy as np
from vkit import workload
from vkit import gradio_stub as W

PROPERTY = "A01"
RULE = "distinct (data set, model, form values, place) trainings whose constructed model, page and files were compared"
REQUIRE = {"session": 60, "training": 60, "remote": 25, "poll": 60, "fault": 20, "offer": 40, "figure": 8, "real": 3}
ASSUME = ["Gradio and the Bohrium SDK are not installed: stand-ins keep their calling conventions (see vkit/gradio_stub.py)",
          "the remote machine is the runner in the same process, given only the uploaded configuration file"]

CLASSES = {"sga": ("kd.model.kd_sga", "KD_SGA"), "dlga": ("kd.model.kd_dlga", "KD_DLGA"),
           "discover": ("kd.model.kd_discover", "KD_Discover"), "discover_spr": ("kd.model.kd_discover", "KD_Discover_SPR"),
           "eqgpt": ("kd.model.kd_eqgpt", "KD_EqGPT")}
# what a field shown to the user means to the model it belongs to
FIELDS = {"sga": {"SGA runs": "sga_run", "Population size": "num", "Tree depth": "depth", "Seed": "seed"},
          "dlga": {"Operators": "operators", "Sparsity penalty": "epi", "NN max iterations": "max_iter", "Sample points": "sample"},
          "discover": {"Binary operators": "binary_operators", "Unary operators": "unary_operators", "Samples per batch": "n_samples_per_batch",
                       "Search epochs": "n_epochs", "Seed": "seed"},
          "discover_spr": {"Binary operators": "binary_operators", "Unary operators": "unary_operators",
                           "Samples per batch": "n_samples_per_batch", "Observation ratio": "sample_ratio",
                           "PINN search epochs": "n_epochs", "Seed": "seed"},
          "eqgpt": {"Optimize epochs": "optimize_epochs", "Samples per epoch": "samples_per_epoch", "Case filter": "case_filter"}}
EQS = ["A01 \u2202u = %d", "$A01_t = %d u_{xx}$", "A01_t = %d*u_xx^2", "A01 \\frac{%d", "A01 %d^^2", "A01 $%d", "A01 \\nonsense{%d}"]


def the_app():
    W.install()
    if "app" not in sys.modules:
        sys.path.insert(0, os.environ.get("KD_REPO", "/repo"))
        try:
            importlib.import_module("app")
        finally:
            sys.path.pop(0)
    return sys.modules["app"]


def init():
    the_app()


class Trace:
    """stand-ins for the five models that record what they were asked to do"""

    def __init__(self, boom=None, eq=EQS[0]):
        self.made, self.boom, self.eq = [], boom, eq

    def __enter__(self):
        trace, self.real = self, {}

        def stand_in(key):
            class Model:
                def __init__(self, *a, **kw):
                    self.key, self.args, self.kw, self.fit, self.data = key, a, dict(kw), {}, None
                    self.tag = trace.eq % len(trace.made)
                    trace.made.append(self)
                    if trace.boom == "make":
                        raise RuntimeError("cannot build \u2207")

                def fit_dataset(self, dataset, **kw):
                    self.data, self.fit = dataset, dict(kw)
                    self.draw = np.random.random()
                    if trace.boom == "fit":
                        raise ValueError("fit went wrong {}")
                    self.eq_latex = self.tag
                    return {"expression": self.tag, "best_equation": self.tag}

                def fit_pretrained(self):
                    return self.fit_dataset(None)

                def equation_latex(self, *a, **k):
                    return self.tag
            Model.__name__ = CLASSES[key][1]
            return Model
        for key, (mod, name) in CLASSES.items():
            module = importlib.import_module(mod)
            self.real[key] = getattr(module, name)
            setattr(module, name, stand_in(key))
        return self

    def __exit__(self, *a):
        for key, (mod, name) in CLASSES.items():
            setattr(importlib.import_module(mod), name, self.real[key])


class Cloud:
    """a stand-in for the Bohrium SDK: keeps jobs, runs them with the runner, hands back what it left"""

    def __init__(self, root, projects=1, fail=None, stride=1):
        self.root, self.projects, self.fail, self.stride = root, projects, fail, stride
        self.jobs, self.calls, self.clients, self.configs = {}, [], [], []

    def __enter__(self):
        cloud = self
        mod = types.ModuleType("bohrium_open_sdk")

        class UploadInputItem:
            def __init__(self, input_field, src):
                self.input_field, self.src = input_field, src

        class Ns:
            pass

        class OpenSDK:
            def __init__(self, access_key, app_key):
                self.who = (access_key, app_key)
                cloud.clients.append(self.who)
                self.user, self.app, self.web = Ns(), Ns(), Ns()
                self.user.list_project = self.list_project
                self.app.job = Ns()
                self.app.job.submit, self.app.job.detail = self.submit, self.detail
                self.web.sub_model = Ns()
                self.web.sub_model.download = self.download

            def trip(self, what):
                cloud.calls.append((what, self.who))
                if cloud.fail == what:
                    raise ConnectionError(f"no route for {what}")

            def list_project(self):
                self.trip("list")
                return {"data": {"items": [{"project_id": 900 + k} for k in range(cloud.projects)]}}

            def submit(self, app_key, sub_model_name, project_id, inputs, upload_files, **kw):
                self.trip("submit")
                files = {}
                for u in upload_files:
                    with open(u.src, encoding="utf-8") as f:
                        files[u.input_field] = f.read()
                    cloud.configs.append(u.src)
                n = 7000 + cloud.stride * len(cloud.jobs)
                cloud.jobs[n] = {"files": files, "project": project_id, "who": self.who, "inputs": dict(inputs), "status": 0}
                return {"data": {"jobId": n}}

            def detail(self, job_id):
                self.trip("detail")
                return {"data": {"status": cloud.jobs[job_id]["status"], "spendTime": "12s"}}

            def download(self, job_id, remote_target, save_path):
                self.trip("download")
                src = os.path.join(cloud.jobs[job_id]["out"], "")
                for f in os.listdir(src):
                    shutil.copy(os.path.join(src, f), save_path)
        mod.OpenSDK, mod.UploadInputItem = OpenSDK, UploadInputItem
        self.old = sys.modules.get("bohrium_open_sdk")
        sys.modules["bohrium_open_sdk"] = mod
        import kd.job as J
        self.dir = J.JOB_OUTPUT_DIR
        J.JOB_OUTPUT_DIR = os.path.join(self.root, "outputs")
        return self

    def __exit__(self, *a):
        import kd.job as J
        J.JOB_OUTPUT_DIR = self.dir
        if self.old is None:
            del sys.modules["bohrium_open_sdk"]
        else:
            sys.modules["bohrium_open_sdk"] = self.old

    def run(self, job_id):
        """what the machine behind the queue does: the runner on the uploaded configuration"""
        from kd import runner
        j = self.jobs[job_id]
        d = os.path.join(self.root, f"node{job_id}")
        os.makedirs(d)
        p = os.path.join(d, "config.json")
        with open(p, "w", encoding="utf-8") as f:
            f.write(j["files"]["config"])
        j["out"] = os.path.join(d, "output")
        argv, sys.argv = sys.argv, ["runner", "--config", p, "--output_dir", j["out"]]
        code = 0
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                runner.main()
        except SystemExit as e:
            code = e.code
        finally:
            sys.argv = argv
        return code


@contextlib.contextmanager
def scratch():
    back = os.getcwd()
    root = os.path.realpath(tempfile.mkdtemp(prefix="a01_"))
    tmp = os.path.join(root, "tmp")
    os.makedirs(os.path.join(root, "cwd"))
    os.makedirs(tmp)
    old, env = tempfile.tempdir, os.environ.get("TMPDIR")
    tempfile.tempdir = tmp
    os.chdir(os.path.join(root, "cwd"))
    try:
        yield root
    finally:
        os.chdir(back)
        tempfile.tempdir = old
        import matplotlib.pyplot as plt
        plt.close("all")
        shutil.rmtree(root, ignore_errors=True)


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a)


def registry():
    from kd.dataset._registry import PDE_REGISTRY
    return {k: v for k, v in PDE_REGISTRY.items() if v.get("status") != "pending"}


def display(app, key):
    """the page's name for a model"""
    cls = CLASSES[key][1]
    return cls.replace("Discover", "DSCV") if "Discover" in cls and cls not in getattr(app, "MODEL_KEYS", {"KD_DSCV": 1}) else cls


def fill(rng, page, key):
    """type values into the fields shown for this model; returns what the model should be given"""
    want = {}
    ops = {"discover": (["add", "mul", "diff", "diff2", "sub", "div"], ["n2", "n3", "sin"]),
           "discover_spr": (["add_t", "mul_t", "div_t", "diff_t", "diff2_t"], ["n2_t", "n3_t"])}
    for label, arg in FIELDS[key].items():
        c = page.find(label)
        v = None
        if arg in ("operators", "binary_operators", "unary_operators"):
            pool = ["u", "u_x", "u_xx", "u_xxx", "u_tt"] if arg == "operators" else ops[key][0 if arg[0] == "b" else 1]
            if rng.random() < 0.25:
                v = c.value                     # the preset shown for this model
            else:
                take = [pool[k] for k in rng.permutation(len(pool))[:int(rng.integers(1, len(pool) + 1))]]
                v = [", ", ",", " , "][int(rng.integers(3))].join(take) + ["", ","][int(rng.random() < 0.2)]
            want[arg] = [o.strip() for o in v.split(",") if o.strip()]
        elif arg in ("epi", "sample_ratio"):
            v = want[arg] = round(float(rng.uniform(0.02, 0.9)), 2)
        elif arg == "case_filter":
            v = c.choices[int(rng.integers(len(c.choices)))]
            want[arg] = "N" if v.startswith("N") else "all"
        elif rng.random() < 0.15:
            v = c.value
            want[arg] = v
        elif arg == "sample" and rng.random() < 0.2:
            v = want[arg] = None
        else:
            v = int(rng.integers(1, 5000))
            want[arg] = v
        page.enter(label, v)
    return want


def compatible(name):
    got = [k for k, on in registry()[name]["models"].items() if on and k in CLASSES]
    return sorted(set(got) | {"eqgpt"})


def choose(m, rng, app, page, key=None):
    """pick a data set and a model on the page; returns (data set, key)"""
    reg = registry()
    names = sorted(n for n in reg if key is None or key in compatible(n))
    name = names[int(rng.integers(len(names)))]
    page.enter("Dataset", name)
    offered = page.find("Model", "Dropdown").choices
    keys = [k for k in compatible(name) if display(app, k) in offered]
    m.check(set(keys) == set(compatible(name)) and len(offered) == len(keys), "offers-the-models-that-work",
            f"{name}: {offered} for {compatible(name)}")
    m.saw("offer")
    k = key if key in keys else keys[int(rng.integers(len(keys)))]
    page.enter("Model", display(app, k), "Dropdown")
    return name, k


def told(model):
    return {**model.kw, **model.fit}


def same_data(a, b):
    return a is not None and np.array_equal(np.asarray(a.usol), np.asarray(b.usol)) and np.array_equal(a.x, b.x) and np.array_equal(a.t, b.t)


def reaches(m, model, want, tag):
    got = told(model)
    for arg, v in want.items():
        g = got.get(arg, "(not passed)")
        if g == "(not passed)" and v is None:
            continue
        m.check(g == v and (type(g) in (int, float) or not isinstance(v, (int, float))), "form-reaches-model", f"{tag}: {arg}={g!r}, form says {v!r}")


@workload(quick=90, thorough=1500)
def local(m, rng, i):
    """Each session: choose, fill in, train; the model built is the one shown, with the values shown, on that data."""
    from kd.dataset import load_pde
    app = the_app()
    with scratch() as root, Trace(eq=EQS[i % len(EQS)]) as tr:
        page = W.Page(app.build_app(), W.Request(cookie=[None, "", "theme=dark"][i % 3]))
        m.saw("session")
        first = page.find("Dataset").value
        offered = page.find("Model", "Dropdown").choices
        m.check(sorted(display(app, k) or k for k in compatible(first)) == sorted(offered), "offers-the-models-that-work", f"at start: {first} {offered}")
        m.check(sorted(page.find("Dataset").choices) == sorted(registry()), "offers-the-active-datasets", str(page.find("Dataset").choices))
        for step in range(int(rng.integers(1, 4))):
            before = len(tr.made)
            name, key = choose(m, rng, app, page)
            want = fill(rng, page, key)
            shown = [c.label for c in page.all() if c.kind in ("Number", "Textbox", "Slider", "Dropdown") and c.shown()]
            foreign = [l for k, f in FIELDS.items() if k != key for l in f if l not in FIELDS[key] and any(l in str(s) for s in shown)]
            foreign = [l for l in foreign if not (key == "discover_spr" and l == "Search epochs")]
            m.check(not foreign, "only-own-fields-shown", f"{key}: {foreign}")
            quiet(page.press, "Start Training")
            tag = f"{name}/{key}"
            text = page.find("Discovered Equation").value
            if not m.check(len(tr.made) == before + 1, "trains-once", f"{tag}: {len(tr.made) - before} models; {str(text)[-300:]}"):
                return
            mod = tr.made[-1]
            m.saw("training")
            m.check(mod.key == key, "trains-the-chosen-model", f"{tag}: built {mod.key}")
            reaches(m, mod, want, tag)
            if key != "eqgpt":
                m.check(same_data(mod.data, load_pde(name)), "trains-on-the-chosen-data", tag)
            m.check(text == mod.tag, "reports-the-equation", f"{tag}: {text!r:.300} vs {mod.tag!r}")
            plot = page.find("Equation Visualization").value
            drawn = [t.get_text() for a in plot.axes for t in a.texts] if plot is not None else []
            m.check(any(t.strip("$") == mod.tag.strip("$") for t in drawn), "equation-drawn", f"{tag}: {mod.tag!r} as {drawn}")
            states = [c for c in page.all("State") if c.value is mod]
            m.check(len(states) == 1, "keeps-the-trained-model", f"{tag}: {[c.value for c in page.all('State')]}")
            if "seed" in want and key.startswith("discover"):
                again = np.random.RandomState(want["seed"]).random_sample()
                m.check(mod.draw == again, "seeded-by-the-form", f"{tag}: {want['seed']}")
            m.check(not page.find("Check GPU", "Button").visible, "no-job-for-local-training", tag)
            m.distinct((name, key, json.dumps(want, sort_keys=True), "local"))


@workload(quick=70, thorough=1200)
def remote(m, rng, i):
    """On the platform the same form, as a job, trains the same model; polling shows where it stands until it is over."""
    from kd.dataset import load_pde
    app = the_app()
    cookie = f"appAccessKey=ak{i}; clientName=cn{i % 3}"
    key = ["dlga", "discover_spr"][i % 2]
    with scratch() as root, Trace() as tr, Cloud(root, projects=1 + int(rng.integers(3))) as cloud:
        page = W.Page(app.build_app(), W.Request(cookie=cookie))
        m.saw("session")
        name, k = choose(m, rng, app, page, key)
        want = fill(rng, page, k)
        quiet(page.press, "Start Training")
        eq, plot = page.find("Discovered Equation"), page.find("Equation Visualization")
        tag = f"{name}/{key}"
        if not m.check(len(cloud.jobs) == 1 and not tr.made, "submits-one-job", f"{tag}: {len(cloud.jobs)} jobs, {len(tr.made)} local; {eq.value!r:.300}"):
            return
        job_id, job = next(iter(cloud.jobs.items()))
        m.saw("remote")
        m.check(job["who"] == (f"ak{i}", f"cn{i % 3}"), "submits-as-the-user", f"{job['who']}")
        m.check(job["project"] in [900 + q for q in range(cloud.projects)], "uses-own-project", str(job["project"]))
        m.check(not any(os.path.exists(p) for p in cloud.configs), "uploads-leave-nothing", str(cloud.configs))
        status, button = page.find("GPU Job Status"), page.find("Check GPU", "Button")
        m.check(str(job_id) in str(eq.value) and button.visible and status.visible, "job-shown", f"{eq.value!r} {button.visible} {status.visible}")
        # the job waits, runs, and ends one way or the other
        for _ in range(int(rng.integers(1, 5))):
            job["status"] = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 99, -1]))
            cloud.fail = "detail" if rng.random() < 0.2 else None
            page.press("Check GPU")
            m.saw("poll")
            kept = [c for c in page.all("State") if c.value == job_id]
            m.check(len(kept) == 1 and button.visible, "unfinished-job-kept", f"status {job['status']} fail {cloud.fail}: {[c.value for c in page.all('State')]} {button.visible}")
            m.check("A01" not in str(eq.value), "no-equation-before-the-end", f"{eq.value!r}")
            cloud.fail = None
        end = ["done", "done", "done", "failed", "error-inside", "lost"][int(rng.integers(6))]
        if end == "error-inside":
            tr.boom = "fit"
        if end != "failed":
            code = cloud.run(job_id)
            m.check((code == 0) == (end != "error-inside"), "job-exit", f"{tag} {end}: {code}")
            if not m.check(len(tr.made) == 1 and tr.made[0].key == key, "job-trains-the-chosen-model", f"{tag}: {[x.key for x in tr.made]}"):
                return
            mod = tr.made[0]
            reaches(m, mod, want, tag + " (job)")
            m.check(same_data(mod.data, load_pde(name)), "job-trains-on-the-chosen-data", tag)
            picture = os.path.join(job["out"], "equation.png")
            with_picture = rng.random() < 0.6 and end == "done"
            if with_picture and not os.path.exists(picture):
                import matplotlib.image as mpimg
                mpimg.imsave(picture, rng.random((6, 9, 3)))
            elif not with_picture and os.path.exists(picture):
                os.unlink(picture)
            if end == "lost":
                os.unlink(os.path.join(job["out"], "result.json"))
        job["status"] = int(rng.choice([12, 13])) if end == "failed" else int(rng.choice([10, 11]))
        page.press("Check GPU")
        m.saw("poll")
        m.check(not any(c.value == job_id for c in page.all("State")) and not button.visible, "ended-job-dropped", f"{end}: {[c.value for c in page.all('State')]}")
        if end == "done":
            m.check(eq.value == tr.made[0].tag, "job-equation-shown", f"{tag}: {eq.value!r} vs {tr.made[0].tag!r}")
            m.check((plot.value is not None) == with_picture, "job-picture-shown", f"{tag}: {plot.value} {with_picture}")
            if with_picture and plot.value is not None:
                img = plot.value.axes[0].images
                import matplotlib.image as mpimg
                m.check(bool(img) and np.allclose(img[0].get_array(), mpimg.imread(picture)), "job-picture-is-the-jobs", tag)
                m.saw("figure")
        else:
            m.saw("fault")
            m.check("A01" not in str(eq.value) and plot.value is None, "no-equation-from-a-failed-job", f"{end}: {eq.value!r}")
        if end == "failed":
            m.check("ail" in str(eq.value) or "rror" in str(eq.value), "failure-reported", f"{eq.value!r}")
        # the same form trained here builds the same model
        if end == "done" and rng.random() < 0.7:
            tr.boom = None
            page.request = W.Request(cookie=None)
            quiet(page.press, "Start Training")
            a, b = told(tr.made[0]), told(tr.made[-1])
            m.check(len(tr.made) == 2 and a == b, "same-training-either-way", f"{tag}: {a} vs {b}")
            m.check(tr.made[0].draw == tr.made[-1].draw or key == "dlga", "same-seed-either-way", tag)
        page.press("Check GPU")
        m.check(not any(c.value == job_id for c in page.all("State")), "no-job-left", tag)
        m.distinct((name, key, json.dumps(want, sort_keys=True), end))


@workload(quick=40, thorough=600)
def users(m, rng, i):
    """Several users on one server: what each starts, asks for and is shown is his own."""
    import matplotlib.image as mpimg
    app = the_app()
    n = int(rng.integers(2, 4))
    stride = 10 ** int(rng.integers(7))
    with scratch() as root, Trace() as tr, Cloud(root, stride=stride) as cloud:
        same_app = rng.random() < 0.5
        who = [(f"user{i}x{k}", "kd-web" if same_app else f"kd-web{k}") for k in range(n)]
        demo = app.build_app()
        pages = [W.Page(app.build_app() if k else demo, W.Request(cookie="; ".join(
            [f"appAccessKey={a}", f"clientName={c}", "lang=en"][j] for j in rng.permutation(3)))) for k, (a, c) in enumerate(who)]
        mine, shown = {}, {}
        for step in range(int(rng.integers(6, 16))):
            k = int(rng.integers(n))
            page = pages[k]
            eq = page.find("Discovered Equation")
            del cloud.calls[:]
            if k not in mine:
                choose(m, rng, app, page, str(rng.choice(["dlga", "discover_spr"])))
                fill(rng, page, "dlga" if "DLGA" in page.find("Model", "Dropdown").value else "discover_spr")
                quiet(page.press, "Start Training")
                m.saw("remote")
                new = [j for j in cloud.jobs if j not in mine.values() and j not in shown]
                if not m.check(len(new) == 1, "submits-one-job", str(eq.value)[:300]):
                    return
                mine[k] = new[0]
                m.check(cloud.jobs[new[0]]["who"] == who[k], "submits-as-the-user", f"{cloud.jobs[new[0]]['who']} for {who[k]}")
            else:
                j = mine[k]
                done = rng.random() < 0.5
                if done:
                    at = len(tr.made)
                    cloud.run(j)
                    cloud.jobs[j]["status"] = 10 + int(rng.integers(2))
                    picture = os.path.join(cloud.jobs[j]["out"], "equation.png")
                    drawn = rng.random((6, 9, 3)) if rng.random() < 0.5 else None
                    if drawn is not None:
                        mpimg.imsave(picture, drawn)
                    elif os.path.exists(picture):
                        os.unlink(picture)
                page.press("Check GPU")
                m.saw("poll")
                if done:
                    m.check(len(tr.made) == at + 1 and eq.value == tr.made[-1].tag, "own-result-shown", f"{eq.value!r} for job {j}")
                    fig = page.find("Equation Visualization").value
                    if m.check((fig is not None) == (drawn is not None), "own-picture-shown", f"job {j} of {sorted(cloud.jobs)}: {fig} for {drawn is not None}") and fig is not None:
                        m.check(np.abs(np.asarray(fig.axes[0].images[0].get_array())[..., :3] - drawn).max() < 0.01, "own-picture-shown", f"job {j}")
                        m.saw("figure")
                    shown[mine.pop(k)] = k
                else:
                    m.check(str(j) in str(eq.value), "own-job-shown", f"{eq.value!r} for job {j}")
            m.check(all(w == who[k] for _, w in cloud.calls), "acts-as-the-user", f"{cloud.calls} for {who[k]}")
            for q, p in enumerate(pages):
                held = [c.value for c in p.all("State") if isinstance(c.value, int)]
                m.check(held == ([mine[q]] if q in mine else []), "own-job-kept", f"user {q}: {held} vs {mine.get(q)}")
        m.saw("session", n)
        m.distinct(("users", n, same_app, i))


@workload(quick=60, thorough=600)
def submitted(m, rng, i):
    """a job asked for directly carries the model, data and settings it was given, under the project it was given"""
    import kd.job as J
    app = the_app()
    with scratch() as root, Cloud(root, projects=1 + int(rng.integers(3))) as cloud:
        default, J.KD_GPU_PROJECT_ID = J.KD_GPU_PROJECT_ID, [0, 0, 55][int(rng.integers(3))]
        try:
            ask = W.Request(cookie=f"appAccessKey=ak{i}; clientName=c")
            params = {"n_epochs": int(rng.integers(99)), "operators": ["u", "u_x"], "note": "\u2202"}
            name = [None, "burgers", "kdv"][int(rng.integers(3))]
            data = None
            if rng.random() < 0.6:
                data = os.path.join(root, f"mine {i}.mat")
                with open(data, "w") as f:
                    f.write(f"data {i}")
            pid = [None, 0, 1234][int(rng.integers(3))]
            model = ["dlga", "dscv_spr"][i % 2]
            given = json.dumps(params)
            j = J.submit_gpu_job(model, name, params, ask, project_id=pid, dataset_file=data)
            tag = f"{model} {name} {data} {pid}"
            m.saw("remote")
            if not m.check(j in cloud.jobs and len(cloud.jobs) == 1, "submits-one-job", tag):
                return
            job = cloud.jobs[j]
            c = json.loads(job["files"]["config"])
            m.check(c["model"] == model and c["params"] == params and json.dumps(params) == given and c.get("dataset_name") == name, "job-as-asked", f"{tag}: {c}")
            m.check(job["files"].get("dataset_file") == (f"data {i}" if data else None) and ("dataset_file" in job["inputs"]) == bool(data), "own-data-sent", f"{tag}: {sorted(job['files'])}")
            want = pid or J.KD_GPU_PROJECT_ID or 900
            m.check(job["project"] == want, "project-as-asked", f"{tag}: {job['project']} for {want}")
            m.check(data is None or os.path.exists(data), "own-data-kept", tag)
            m.check(not os.listdir(os.path.join(root, "tmp")), "uploads-leave-nothing", tag)
            # the state of a job, as the queue tells it
            for code in rng.permutation([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, -1, 99])[:6]:
                job["status"] = int(code)
                r = J.check_job(j, ask)
                m.saw("poll")
                m.check(r["finished"] == (code in (10, 11)) and r["failed"] == (code in (12, 13)) and r["status_code"] == code and bool(r["status_text"]),
                        "state-as-told", f"{code}: {r}")
            m.distinct(("submit", model, name, bool(data), pid, J.KD_GPU_PROJECT_ID))
        finally:
            J.KD_GPU_PROJECT_ID = default


@workload(quick=60, thorough=600)
def failures(m, rng, i):
    """Whatever fails, the page says so, keeps no model, and the next training works."""
    app = the_app()
    how = ["make", "fit", "submit", "list", "no-project", "cookie", "download", "nothing-chosen"][i % 8]
    key = str(rng.choice(["dlga", "discover_spr"])) if how in ("submit", "list", "no-project", "cookie", "download") else None
    cookie = f"appAccessKey=fk{i}; clientName=c" if key else None
    if how == "cookie":
        cookie = f"appAccessKey=fk{i}"
    with scratch() as root, Trace(boom=how if how in ("make", "fit") else None) as tr, \
            Cloud(root, projects=0 if how == "no-project" else 1, fail=how if how in ("submit", "list", "download") else None) as cloud:
        page = W.Page(app.build_app(), W.Request(cookie=cookie))
        m.saw("session")
        eq = page.find("Discovered Equation")
        if how == "nothing-chosen":
            page.put(page.find("Model", "Dropdown"), None)
        else:
            name, k = choose(m, rng, app, page, key)
            fill(rng, page, k)
        quiet(page.press, "Start Training")
        if how == "download":
            jid = next(iter(cloud.jobs), None)
            if not m.check(jid is not None, "submits-one-job", str(eq.value)):
                return
            cloud.run(jid)
            cloud.jobs[jid]["status"] = 10
            page.press("Check GPU")
        m.saw("fault")
        m.check(bool(eq.value) and "A01" not in str(eq.value), "failure-reported", f"{how}: {eq.value!r:.200}")
        want = {"make": "cannot build", "fit": "fit went wrong", "submit": "no route for submit", "list": "no route for list",
                "download": "no route for download"}.get(how)
        m.check(want is None or want in str(eq.value), "failure-names-cause", f"{how}: {eq.value!r:.300}")
        m.check(all(c.value is None for c in page.all("State")), "no-model-kept", f"{how}: {[c.value for c in page.all('State')]}")
        m.check(how == "download" or not cloud.jobs, "no-job-submitted", f"{how}: {cloud.jobs}")
        m.check(not any(os.path.exists(p) for p in cloud.configs) and not os.listdir(os.path.join(root, "tmp")), "uploads-leave-nothing",
                f"{how}: {os.listdir(os.path.join(root, 'tmp'))}")
        page.press("Generate")
        fig, msg = page.find("Result", "Plot").value, page.find("Status", "Textbox").value
        m.check(fig is None and bool(msg), "asks-to-train-first", f"{fig} {msg}")
        # and then all is well
        tr.boom, cloud.fail, cloud.projects, n = None, None, 1, len(tr.made)
        page.request = W.Request(cookie=None)
        name, k = choose(m, rng, app, page)
        want = fill(rng, page, k)
        quiet(page.press, "Start Training")
        m.saw("training")
        m.check(len(tr.made) == n + 1 and eq.value == tr.made[-1].tag, "recovers", f"{how}: {eq.value!r:.200}")
        page.press("Cancel")
        m.check(not any(c.value is not None for c in page.all("State")), "cancel-clears", how)
        m.distinct((how, key, i))


@workload(quick=6, thorough=30, timeout=400)
def real(m, rng, i):
    """Real models behind the page: the equation and every figure it offers are the model's own."""
    import kd.dataset, kd.viz.core as core
    from kd.viz._style import get_config
    from vkit.viz_ref import listing
    app = the_app()
    key = ["sga", "discover", "sga", "dlga", "discover", "discover_spr"][i % 6]
    with scratch() as root:
        page = W.Page(app.build_app(), W.Request(cookie=None))
        m.saw("session")
        name = "burgers" if key == "discover_spr" else sorted(n for n in registry() if key in compatible(n))[0]
        if key == "sga":
            name = str(rng.choice(["burgers", "kdv", "chafee-infante"]))
        page.enter("Dataset", name)
        page.enter("Model", display(app, key), "Dropdown")
        small = {"sga": {"SGA runs": 2, "Population size": 3, "Tree depth": 2}, "dlga": {"NN max iterations": 2, "Sample points": 40},
                 "discover": {"Samples per batch": 20, "Search epochs": 1},
                 "discover_spr": {"Samples per batch": 10, "PINN search epochs": 1, "Observation ratio": 0.01}}[key]
        for l, v in small.items():
            page.enter(l, v)
        if key != "dlga":
            page.enter("Seed", int(rng.integers(50)))
        with fast_pinn():
            quiet(page.press, "Start Training")
        eq, plot = page.find("Discovered Equation"), page.find("Equation Visualization")
        held = [c.value for c in page.all("State") if c.value is not None]
        if not m.check(len(held) == 1, "keeps-the-trained-model", f"{key}: {eq.value!r:.600}"):
            return
        model = held[0]
        m.saw("real")
        m.check(type(model).__name__ == CLASSES[key][1], "trains-the-chosen-model", type(model).__name__)
        own = {"sga": lambda: model.equation_latex(), "dlga": lambda: model.eq_latex}.get(key)
        if own:
            m.check(eq.value == own(), "reports-the-equation", f"{key}: {eq.value!r}")
        else:
            m.check(isinstance(eq.value, str) and eq.value and not eq.value.startswith("("), "reports-the-equation", f"{key}: {eq.value!r}")
        m.check(plot.value is not None, "equation-drawn", f"{key}: {eq.value!r}")
        dd = page.find("Plot type")
        caps = [c for c in core.list_capabilities(model) if key == "discover_spr" or not c.startswith("spr_")]
        m.check(sorted(dd.choices) == sorted(caps) and dd.value in caps, "offers-the-models-figures", f"{key}: {dd.choices} vs {caps}")
        before = listing(root)
        for c in caps:
            page.enter("Plot type", c)
            quiet(page.press, "Generate")
            fig, msg = page.find("Result", "Plot").value, page.find("Status", "Textbox").value
            m.saw("figure")
            m.check(isinstance(msg, str) and msg and "Visualization error" not in msg, "figure-or-reason", f"{key}/{c}: {msg!r:.300}")
            m.check((fig is not None) == (c in msg and "generated" in msg), "figure-as-announced", f"{key}/{c}: {fig} {msg!r:.200}")
            m.check(get_config().save_dir is None, "save-folder-restored", f"{key}/{c}: {get_config().save_dir}")
        after = listing(root)
        m.check(set(after) == set(before), "figures-leave-no-files", f"{key}: {sorted(set(after) ^ set(before))[:4]}")
        left = [f for f in os.listdir(os.path.join(root, "tmp")) if not f.startswith("torch")]
        m.check(not left, "figures-leave-no-files", f"{key}: {left}")
        m.distinct((key, name, eq.value))


@contextlib.contextmanager
def fast_pinn():
    """the search behind the page at a size that fits a check"""
    from kd.model.kd_discover import KD_Discover_SPR
    real = KD_Discover_SPR.make_pinn_model

    def make(self, *a, **k):
        net = real(self, *a, **k)
        net.pretrain_epoch = 5
        net.pinn_epoch = 2
        return net
    KD_Discover_SPR.make_pinn_model = make
    try:
        yield
    finally:
        KD_Discover_SPR.make_pinn_model = real
