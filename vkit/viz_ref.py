"""What a plotting call drew, wrote and touched: recorded from the figures themselves."""
import contextlib, hashlib, io, os, random, re, shutil, sys, tempfile
import numpy as np
from vkit import sga_ref as R


# ------------------------------------------------------------------ the figures as they are saved
class Panel:
    """one visible set of axes at the moment the figure is saved"""

    def __init__(self, ax):
        self.title, self.xlabel, self.ylabel = ax.get_title(), ax.get_xlabel(), ax.get_ylabel()
        self.colorbar = hasattr(ax, "_colorbar")
        arr = lambda a: np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
        self.lines = [(arr(l.get_xdata()), arr(l.get_ydata()), l.get_label()) for l in ax.lines]
        self.meshes, self.scatters = [], []
        for c in ax.collections:
            n = type(c).__name__
            if n == "QuadMesh":
                self.meshes.append((np.array(c.get_coordinates(), dtype=float), arr(c.get_array()), c.get_clim()))
            elif n == "PathCollection":
                a = c.get_array()
                self.scatters.append((arr(c.get_offsets()), None if a is None else arr(a).ravel()))
        self.images = [(arr(im.get_array()), im.origin, im.get_extent(), im.get_clim()) for im in ax.images]
        self.bars = np.array([(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches
                              if type(p).__name__ == "Rectangle"], dtype=float).reshape(-1, 3)
        self.texts = [t.get_text() for t in ax.texts]
        self.legend = [] if ax.get_legend() is None else [t.get_text() for t in ax.get_legend().get_texts()]


class Camera:
    """every figure saved while the camera is on, rendered for real (at a coarse resolution)"""

    def __init__(self, dpi=15):
        self.shots, self.dpi = [], dpi

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg", force=True)
        from matplotlib.figure import Figure
        self.cls, self.real = Figure, Figure.savefig
        cam = self

        def savefig(fig, fname, *a, **k):
            panels = [Panel(ax) for ax in fig.axes if ax.get_visible()]
            if isinstance(fname, (str, os.PathLike)):
                cam.shots.append((os.path.abspath(os.fspath(fname)), panels, dict(k)))
            k["dpi"] = cam.dpi
            return cam.real(fig, fname, *a, **k)
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.real

    def of(self, path):
        """panels of the last figure saved at (or moved to) this path"""
        path = os.path.abspath(os.fspath(path))
        hit = [s for s in self.shots if s[0] == path] or [s for s in self.shots if os.path.dirname(s[0]) == os.path.dirname(path)]
        return [p for p in hit[-1][1] if not p.colorbar] if hit else []


def mesh_at(mesh, hs, vs):
    """values a colour mesh shows at horizontal positions hs and vertical positions vs: array [v, h].  None where nothing is drawn"""
    C, A, _ = mesh
    H, V = C[0, :, 0], C[:, 0, 1]
    if not (np.allclose(C[:, :, 0], H[None, :]) and np.allclose(C[:, :, 1], V[:, None])):
        return None
    A = A.reshape(-1)

    def index(edges, at, cells):
        at = np.asarray(at, dtype=float)
        sign = 1 if edges[-1] >= edges[0] else -1
        if not np.all(np.diff(sign * edges) >= 0):
            return None
        if not cells:
            k = np.argmin(np.abs(edges[None, :] - at[:, None]), axis=1)
            tol = 1e-6 * (np.abs(edges).max() + np.ptp(edges) + 1e-300)
            return k if np.all(np.abs(edges[k] - at) <= tol) else None
        k = np.searchsorted(sign * edges, sign * at, side="right") - 1
        return k if np.all((k >= 0) & (k < len(edges) - 1)) else None
    cells = A.size == (len(H) - 1) * (len(V) - 1) and A.size != len(H) * len(V)
    if not cells and A.size != len(H) * len(V):
        return None
    A = A.reshape(len(V) - cells, len(H) - cells)
    i, j = index(V, vs, cells), index(H, hs, cells)
    return None if i is None or j is None else A[np.ix_(i, j)]


def role(panel):
    """'true', 'model' or '' from the title"""
    t = panel.title.lower()
    a = any(w in t for w in ("true", "original", "exact"))
    b = any(w in t for w in ("pred", "metadata", "rhs"))
    return "true" if a and not b else "model" if b and not a else ""


def histogram_ok(bars, values):
    """the drawn bars are a histogram of the values: same range, heights proportional to the counts"""
    v = np.asarray(values)
    rnd = 8 * np.finfo(v.dtype).eps * np.abs(v).max() if v.dtype.kind == "f" else 0.0
    v = v.astype(float).ravel()
    if len(bars) == 0:
        return "no bars"
    bars = bars[np.argsort(bars[:, 0])]
    edges = np.append(bars[:, 0], bars[-1, 0] + bars[-1, 1])
    span = max(np.ptp(v), 1e-300)
    if edges[0] > v.min() + 1e-6 * span + rnd or edges[-1] < v.max() - 1e-6 * span - rnd:
        return f"bars over [{edges[0]}, {edges[-1]}], values over [{v.min()}, {v.max()}]"
    w = bars[:, 1]
    if np.ptp(w) > 1e-6 * w.max() + rnd:
        return "uneven bars"
    total = bars[:, 2].sum()
    scale = len(v) if abs(total - len(v)) < 1e-6 * len(v) else 1.0 / w.mean() if abs(total * w.mean() - 1) < 1e-5 + 0.1 * rnd / w.mean() else None
    if scale is None:
        return f"bar heights sum to {total}, area {total * w.mean()}, for {len(v)} values"
    got = np.cumsum(bars[:, 2]) / scale * len(v)
    eps = 1e-7 * (span + np.abs(v).max()) + rnd
    lo = np.array([(v < e - eps).sum() for e in edges[1:]])
    hi = np.array([(v <= e + eps).sum() for e in edges[1:]])
    bad = (got < lo - 1e-3) | (got > hi + 1e-3)
    return f"cumulative counts {got[bad][:3]} outside [{lo[bad][:3]}, {hi[bad][:3]}]" if bad.any() else ""


# ------------------------------------------------------------------ side effects
WRITES = []
_on = [False]
_hooked = [False]


def _audit(event, args):
    if not _on[0]:
        return
    if event == "open":
        p, mode, flags = args
        if isinstance(p, (str, bytes, os.PathLike)) and (isinstance(mode, str) and any(c in mode for c in "wax+")
                                                         or mode is None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            WRITES.append(("write", os.path.abspath(os.fsdecode(p))))
    elif event in ("os.mkdir", "os.remove", "os.rmdir", "os.truncate"):
        if isinstance(args[0], (str, bytes, os.PathLike)):
            WRITES.append((event[3:], os.path.abspath(os.fsdecode(args[0]))))
    elif event == "os.rename":
        for a in args[:2]:
            WRITES.append(("rename", os.path.abspath(os.fsdecode(a))))


@contextlib.contextmanager
def watch_writes():
    if not _hooked[0]:
        sys.addaudithook(_audit)
        _hooked[0] = True
    WRITES.clear()
    _on[0] = True
    try:
        yield WRITES
    finally:
        _on[0] = False


def listing(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            s = os.stat(p)
            out[p] = (s.st_mtime_ns, s.st_size, s.st_ino)
    return out


def is_png(path):
    with open(path, "rb") as f:
        return f.read(8) == b"\x89PNG\r\n\x1a\n"


def digest(obj, depth=7, limit=4000):
    """path -> digest of every array, number and string reachable from obj"""
    out, seen = {}, set()
    h = lambda b: hashlib.sha1(b).hexdigest()[:16]

    def walk(o, p, d):
        if len(out) >= limit or d < 0:
            return
        if o is None or isinstance(o, (bool, int, float, complex, str, bytes, np.generic)):
            out[p] = repr(o)
            return
        if isinstance(o, np.ndarray):
            out[p] = (o.shape, str(o.dtype), h(np.ascontiguousarray(o).tobytes()) if o.dtype != object else h(repr(o.tolist()).encode()))
            return
        if type(o).__module__.startswith("torch"):
            if hasattr(o, "detach"):
                out[p] = h(o.detach().cpu().numpy().tobytes())
            elif hasattr(o, "state_dict") and hasattr(o, "parameters"):
                for k, t in o.state_dict().items():
                    out[p + "." + k] = h(t.detach().cpu().numpy().tobytes())
            return
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, dict):
            for k in list(o):
                if isinstance(k, (str, int, tuple)):
                    walk(o[k], f"{p}[{k!r}]", d - 1)
        elif isinstance(o, (list, tuple)):
            out[p + "#"] = len(o)
            for k, e in enumerate(o[:200]):
                walk(e, f"{p}[{k}]", d - 1)
        elif hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o) or type(o).__module__.startswith("kd."):
            for k, e in list(getattr(o, "__dict__", {}).items()):
                walk(e, f"{p}.{k}", d - 1)
    walk(obj, "", depth)
    return out


def globals_state():
    import matplotlib, matplotlib.pyplot as plt
    import torch
    s = np.random.get_state()
    return dict(rc={k: repr(v) for k, v in matplotlib.rcParams.items() if k != "backend"}, figs=tuple(plt.get_fignums()),
                numpy=hashlib.sha1(s[1].tobytes()).hexdigest() + str(s[2]), python=hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
                torch=hashlib.sha1(torch.get_rng_state().numpy().tobytes()).hexdigest(), cwd=os.getcwd())


def differs(a, b):
    """first differences between two state dictionaries, over the keys of the first"""
    out = []
    for k in a:
        if k not in b:
            out.append(f"{k} gone")
        elif a[k] != b[k]:
            out.append(f"{k}: {str(a[k])[:60]} -> {str(b[k])[:60]}")
        if len(out) >= 3:
            break
    return out


class Studio:
    """a scratch folder, a camera, and a record of what each call touched"""

    def __init__(self, style=True):
        self.tmp = os.path.realpath(tempfile.mkdtemp(prefix="viz_"))
        self.cwd = os.path.join(self.tmp, "cwd")
        os.mkdir(self.cwd)

    def __enter__(self):
        import matplotlib.pyplot as plt
        from kd.viz._style import get_config
        self.back = os.getcwd()
        os.chdir(self.cwd)
        self.cam = Camera().__enter__()
        plt.close("all")
        self.conf = get_config()
        self.saved = dict(vars(self.conf))
        vars(self.conf).update(vars(type(self.conf)()))
        return self

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        vars(self.conf).clear()
        vars(self.conf).update(self.saved)
        self.cam.__exit__()
        plt.close("all")
        os.chdir(self.back)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def call(self, m, label, fn, model, *a, watch=(), expect=None, **k):
        """run a plotting call; returns its result after judging side effects common to all calls"""
        objs = (model,) + tuple(watch)
        for o in objs:
            digest(o)                                 # first access may fill lazy attributes
        before_state, before = globals_state(), [digest(o) for o in objs]
        files = listing(self.tmp)
        out = io.StringIO()
        with watch_writes() as w, contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            self.cam.shots.clear()
            try:
                r = fn(model, *a, **k)
            finally:
                _on[0] = False
        self.printed = out.getvalue()
        d = differs(before_state, globals_state())
        m.check(not d, "session-unchanged", lambda: f"{label}: {d}")
        for o, b in zip(objs, before):
            d2 = differs(b, digest(o))
            m.check(not d2, "inputs-unchanged", lambda: f"{label}: {type(o).__name__}: {d2}")
        after = listing(self.tmp)
        changed = {p for p in after if files.get(p) != after[p]}
        gone = set(files) - set(after)
        mine = {os.path.realpath(p) for p in r.paths}
        for p in r.paths:
            q = os.path.realpath(p)
            m.check(q in changed, "path-written-by-this-call", f"{label}: {p} {'untouched' if q in after else 'missing'}")
            if q in after:
                m.check(is_png(q), "path-is-an-image", f"{label}: {p}")
        m.check(changed <= mine and not gone, "nothing-else-written", f"{label}: wrote {sorted(changed - mine)}, removed {sorted(gone)}")
        outside = [x for x in w if not x[1].startswith(self.tmp + os.sep) and not ignorable(x[1])]
        m.check(not outside, "nothing-written-elsewhere", f"{label}: {outside[:4]}")
        m.saw("call")
        return r


def ignorable(p):
    import matplotlib, tempfile
    # temporary files of libraries: the ones that are gone again
    if p.startswith(tempfile.gettempdir() + os.sep) and not os.path.lexists(p):
        return True
    return p.startswith(("/dev/", "/proc/", matplotlib.get_cachedir(), "/tmp/pymp-")) or "__pycache__" in p or p.endswith(".pyc")


@contextlib.contextmanager
def drawn_graphs():
    """trees (label, child, ...) of the graphs handed to graphviz"""
    import graphviz
    seen = []
    real = graphviz.Digraph.pipe

    def pipe(self, *a, **k):
        seen.append(tree_of_dot(self.source))
        return real(self, *a, **k)
    graphviz.Digraph.pipe = pipe
    try:
        yield seen
    finally:
        if "pipe" in vars(graphviz.Digraph):
            try:
                del graphviz.Digraph.pipe
            except AttributeError:
                pass
        if graphviz.Digraph.pipe is not real:
            graphviz.Digraph.pipe = real


def tree_of_dot(source):
    ident = r'("(?:[^"\\\\]|\\\\.)*"|[\w.\-]+)'
    labels, kids, inner = {}, {}, set()
    for line in source.splitlines():
        e = re.match(r"\s*" + ident + r"\s*->\s*" + ident, line)
        n = re.match(r"\s*" + ident + r"\s*\[.*?label=" + ident, line)
        if e:
            kids.setdefault(e.group(1), []).append(e.group(2))
            inner.add(e.group(2))
        elif n:
            labels[n.group(1)] = n.group(2).strip('"')
    build = lambda k: (labels[k],) + tuple(build(c) for c in kids.get(k, []))
    roots = [k for k in labels if k not in inner]
    return build(roots[0]) if len(roots) == 1 else tuple(build(k) for k in roots)
