"""A stand-in for the Gradio package: enough of its behaviour to open the page, fill the form and press the buttons.

What it keeps of Gradio: components carry label, value, choices and visibility; an event calls its function with
the values of its inputs (and the browser's request where the signature asks for one), and writes what the function
returns, or the fields of an `update`, into its outputs; a component whose value changed fires its own change event.
"""
import inspect, sys, types


class Update(dict):
    pass


def update(**kw):
    return Update(kw)


class Request:
    def __init__(self, cookie=None, headers=None):
        self.headers = dict(headers or {})
        if cookie is not None:
            self.headers["cookie"] = cookie


class Contract(Exception):
    """The page asked for something Gradio itself refuses."""


class Component:
    stack = []

    def __init__(self, *args, **kw):
        self.kind = type(self).__name__
        self.kw = kw
        self.label = kw.get("label")
        self.visible = kw.get("visible", True)
        self.choices = kw.get("choices")
        self.value = kw.get("value")
        if self.kind in ("Button", "State", "Markdown") and args:
            self.value = args[0]
        if self.kind == "Slider" and len(args) >= 2:
            self.low, self.high = args[:2]
        self.title = args[0] if args and isinstance(args[0], str) else None
        self.parents = list(Component.stack)
        self.events = []
        if Component.stack:
            Component.stack[0].members.append(self)

    def __enter__(self):
        if not Component.stack:
            self.members = []
        Component.stack.append(self)
        return self

    def __exit__(self, *a):
        Component.stack.pop()

    def on(self, name, fn, inputs=None, outputs=None, **kw):
        one = lambda x: [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]
        e = {"name": name, "fn": fn, "inputs": one(inputs), "outputs": one(outputs), "kw": kw, "source": self}
        self.events.append(e)
        return e

    def click(self, fn=None, inputs=None, outputs=None, **kw):
        return self.on("click", fn, inputs, outputs, **kw)

    def change(self, fn=None, inputs=None, outputs=None, **kw):
        return self.on("change", fn, inputs, outputs, **kw)

    def load(self, fn=None, inputs=None, outputs=None, **kw):
        return self.on("load", fn, inputs, outputs, **kw)

    select = input = submit = change

    def launch(self, *a, **k):
        raise Contract("the server was started")

    def shown(self):
        return bool(self.visible) and all(p.visible for p in self.parents)


class Page:
    """One browser session on a built app."""

    def __init__(self, app, request=None):
        self.app, self.request = app, request
        self.fired = 0
        for c in app.members + [app]:
            for e in c.events:
                if e["name"] == "load":
                    self.fire(e)

    def all(self, kind=None):
        return [c for c in self.app.members if kind is None or c.kind == kind]

    def find(self, label, kind=None):
        """The component shown whose label (or, for a button, text) contains these words."""
        hit = [c for c in self.all(kind) if label.lower() in str(c.label or (c.value if c.kind == "Button" else "") or "").lower()]
        exact = [c for c in hit if str(c.label).lower() == label.lower()]
        hit = exact or hit
        if len(hit) > 1:
            hit = [c for c in hit if c.shown()] or hit
        if not hit:
            raise Contract(f"no component labelled {label!r}")
        return hit[0]

    def enter(self, label, value, kind=None):
        c = self.find(label, kind)
        if c.kind == "Dropdown" and value is not None and value not in (c.choices or []):
            raise Contract(f"{label}: {value!r} is not among {c.choices}")
        self.put(c, value)
        return c

    def put(self, c, value):
        changed = c.value is not value and c.value != value if not hasattr(value, "__array__") else True
        c.value = value
        if changed:
            for e in c.events:
                if e["name"] == "change":
                    self.fire(e)

    def press(self, label):
        c = self.find(label, "Button")
        for e in c.events:
            if e["name"] == "click":
                self.fire(e)
        return c

    def fire(self, e):
        self.fired += 1
        fn, args = e["fn"], []
        for c in e["inputs"]:
            if c.kind == "Dropdown" and c.value is not None and c.value not in (c.choices or []):
                raise Contract(f"{c.label}: {c.value!r} is not among {c.choices}")
            args.append(c.value)
        params = list(inspect.signature(fn).parameters.values())
        if any(p.annotation is Request or p.annotation == "gr.Request" for p in params):
            at = [k for k, p in enumerate(params) if p.annotation is Request or p.annotation == "gr.Request"][0]
            if len(args) < at:
                raise Contract(f"{fn.__name__}: {len(args)} inputs for {at} form fields")
            args.insert(at, self.request)
        inspect.signature(fn).bind(*args)
        out = fn(*args)
        n = len(e["outputs"])
        vals = [] if n == 0 else [out] if n == 1 else list(out)
        if len(vals) != n:
            raise Contract(f"{getattr(fn, '__name__', fn)}: {len(vals)} values for {n} outputs")
        for c, v in zip(e["outputs"], vals):
            if isinstance(v, Update):
                for k in ("visible", "choices", "label"):
                    if k in v:
                        setattr(c, k, v[k])
                if "value" in v:
                    self.put(c, v["value"])
            else:
                self.put(c, v)
        return out


def install():
    if "gradio" in sys.modules:
        return sys.modules["gradio"]
    mod = types.ModuleType("gradio")
    mod.update, mod.Request = update, Request

    class _Themes(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return lambda *a, **kw: None
    mod.themes = _Themes("gradio.themes")
    made = {}

    def make(name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name not in made:
            made[name] = type(name, (Component,), {})
        return made[name]
    mod.__getattr__ = make
    sys.modules["gradio"] = mod
    return mod
