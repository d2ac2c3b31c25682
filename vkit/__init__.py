"""Runtime-monitoring harness: sharded workloads, monitors, verdicts, evidence.

A check module in /verif/checks/<name>.py declares

    PROPERTY = "S01"
    RULE     = "what counts as one distinct non-trivial observation"
    ASSUME   = [...]                      # optional
    REQUIRE  = {"event kind": minimum}    # below the minimum => inconclusive (exit 2)
    @workload(quick=40, thorough=400)
    def some_workload(m, rng, i): ...

Each call of a workload drives the real code once; `m` is the monitor.
"""
import hashlib, importlib, json, os, signal, subprocess, sys, tempfile, time, traceback, shutil
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KD_REPO", "/repo")
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(ROOT, "known_findings.json")

PINNED = {
    "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3", "TF_ENABLE_ONEDNN_OPTS": "0",
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore",
}


class CaseTimeout(BaseException):
    pass


class Discard(Exception):
    """Raised by a workload when a generated case is out of the property's domain."""


class Workload:
    def __init__(self, fn, quick, thorough, timeout, fixed):
        self.fn, self.name = fn, fn.__name__
        self.n = {"quick": quick, "thorough": thorough if thorough is not None else quick * 8}
        self.timeout = timeout
        self.fixed = fixed


def workload(quick=20, thorough=None, timeout=150, fixed=False):
    """fixed=True: same cases whatever the seed (deterministic witnesses)."""
    def deco(fn):
        w = Workload(fn, quick, thorough, timeout, fixed)
        fn.__globals__.setdefault("WORKLOADS", []).append(w)
        return fn
    return deco


def _h(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "big")


class Monitor:
    """Collects observed events and violations for one worker process."""

    def __init__(self, pid, known, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.known = [k for k in known if k["property"] == pid and k.get("status") == "known"]
        self.events = {}
        self.keys = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.case = None
        self.evals = 0

    # -- observation ------------------------------------------------------
    def saw(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def distinct(self, key):
        k = _h(key)
        if k not in self.keys:
            self.keys.add(k)
            if len(self.samples) < 6:
                s = str(key)
                self.samples.append({"workload": self.case[0], "i": self.case[1], "obs": s[:160]})

    def check(self, cond, mech, msg="", **info):
        """One evaluation of the oracle. mech names the mechanism (oracle + site)."""
        self.evals += 1
        self.events["eval:" + mech] = self.events.get("eval:" + mech, 0) + 1
        if not bool(cond):
            if callable(msg):
                msg = msg()
            self.fail(mech, str(msg), **info)
            return False
        return True

    def fail(self, mech, msg, **info):
        for k in self.known:
            if k["mechanism"] == mech:
                self.known_hits[k["id"]] = self.known_hits.get(k["id"], 0) + 1
                return
        if sum(1 for v in self.violations if v["mech"] == mech) < 3:
            self.violations.append({"mech": mech, "msg": msg[:1500], "workload": self.case[0],
                                    "i": self.case[1], "info": {a: str(b)[:800] for a, b in info.items()}})
        else:
            self.events["more:" + mech] = self.events.get("more:" + mech, 0) + 1

    def close(self, a, b, mech, rtol=1e-9, atol=1e-12, msg="", **info):
        import numpy as np
        a_, b_ = np.asarray(a), np.asarray(b)
        if a_.shape != b_.shape:
            return self.check(False, mech, f"{msg} shapes {a_.shape} vs {b_.shape}", **info)
        ok = np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)
        return self.check(ok, mech, lambda: f"{msg} got {_short(a_)} want {_short(b_)} maxdiff {_maxdiff(a_, b_)}", **info)

    def raises(self, exc, fn, mech, msg=""):
        try:
            r = fn()
        except exc:
            self.check(True, mech)
            return True
        except CaseTimeout:
            raise
        except BaseException as e:
            self.check(False, mech, f"{msg}: raised {type(e).__name__}: {e} instead of {exc}")
            return False
        self.check(False, mech, f"{msg}: accepted (returned {str(r)[:120]})")
        return False


def _short(a):
    s = str(a)
    return s if len(s) < 300 else s[:300] + "..."


def _maxdiff(a, b):
    import numpy as np
    try:
        return float(np.nanmax(np.abs(a - b)))
    except Exception:
        return "?"


def _load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def _in_repo(tb):
    """True if the innermost non-library frame of the traceback is repository code."""
    last = None
    for fs in traceback.extract_tb(tb):
        p = os.path.abspath(fs.filename)
        if fs.name == "on_alarm":
            continue
        if p.startswith(REPO + os.sep) or p.startswith(ROOT + os.sep):
            last = p
    return last is not None and last.startswith(REPO + os.sep)


def _site(tb):
    last = None
    for fs in traceback.extract_tb(tb):
        p = os.path.abspath(fs.filename)
        if p.startswith(REPO + os.sep):
            last = f"{os.path.relpath(p, REPO)}:{fs.name}"
    return last or "?"


# ---------------------------------------------------------------------------
# worker
# ---------------------------------------------------------------------------

def _import_check(name):
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    try:
        import triton._C.libtriton  # noqa: F401  must precede TensorFlow
    except Exception:
        pass
    warnings.simplefilter("ignore")
    return importlib.import_module("checks." + name)


def worker(name, shard, nshards, tier, seed, out, deadline, only=None):
    import numpy as np
    t0 = time.time()
    res = {"fatal": None}
    mod = _import_check(name)
    if hasattr(mod, "init"):
        mod.init()
    m = Monitor(mod.PROPERTY, _load_known(), tier, seed)
    incompl = []
    errors = []
    discards = {}
    done = {}

    def on_alarm(sig, frm):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)

    # interleave workloads so a deadline cuts all of them evenly
    plan = []
    for w in mod.WORKLOADS:
        n = w.n[tier]
        for i in range(n):
            plan.append((0.0 if w.fixed else (i + 0.5) / n, w, i))
    plan.sort(key=lambda p: p[0])
    if only is not None:
        plan = [(0, w, i) for (_, w, i) in plan if w.name == only[0] and i == only[1]] or \
               [(0, w, only[1]) for w in mod.WORKLOADS if w.name == only[0]]
    else:
        plan = [p for k, p in enumerate(plan) if k % nshards == shard]
    import random
    for _, w, i in plan:
        if only is None and time.time() > deadline:
            incompl.append(f"{w.name}#{i}")
            continue
        s = 0 if w.fixed else seed
        cs = _h(name, w.name, s, i) % (2 ** 32)
        rng = np.random.default_rng(cs)
        np.random.seed(cs)
        random.seed(cs)
        m.case = (w.name, i)
        try:
            signal.alarm(int(w.timeout))
            try:
                w.fn(m, rng, i)
            finally:
                signal.alarm(0)
            done[w.name] = done.get(w.name, 0) + 1
        except Discard:
            discards[w.name] = discards.get(w.name, 0) + 1
        except CaseTimeout:
            tb = sys.exc_info()[2]
            if _in_repo(tb):
                m.fail("hang:" + w.name, f"case did not finish within {w.timeout}s, stuck in {_site(tb)}")
            else:
                errors.append(f"{w.name}#{i}: timeout in harness\n" + traceback.format_exc()[-1500:])
        except (Exception, SystemExit) as e:
            tb = sys.exc_info()[2]
            if _in_repo(tb) and not getattr(e, "harness", False):
                m.fail("crash:" + w.name, f"{type(e).__name__}: {e} at {_site(tb)}",
                       trace=traceback.format_exc()[-1500:])
            else:
                # the monitor could not interpret what the code produced: either the interface moved
                # (no answer) or the observation is malformed (the property is broken)
                moved = isinstance(e, (ImportError, MemoryError, OSError, SystemExit, AssertionError)) or (
                    isinstance(e, (AttributeError, TypeError)) and any(
                        t in str(e) for t in ("module '", "type object", "unexpected keyword", "required positional",
                                              "has no attribute '_", "positional argument")))
                if moved or getattr(e, "harness", False):
                    errors.append(f"{w.name}#{i}: " + traceback.format_exc()[-3000:])
                else:
                    m.fail("malformed:" + w.name, f"observation could not be interpreted: {type(e).__name__}: {e}",
                           trace=traceback.format_exc()[-1500:])
    res.update(events=m.events, keys=sorted(m.keys), samples=m.samples, violations=m.violations,
               known=m.known_hits, evals=m.evals, incomplete=incompl, errors=errors,
               discards=discards, done=done, wall=time.time() - t0,
               rule=mod.RULE, assume=getattr(mod, "ASSUME", []), require=getattr(mod, "REQUIRE", {}),
               property=mod.PROPERTY)
    with open(out, "w") as f:
        json.dump(res, f)


# ---------------------------------------------------------------------------
# parent
# ---------------------------------------------------------------------------

def run(name, tier, seed, jobs, budget, only=None):
    t0 = time.time()
    prop = name.split("_")[0].upper()
    scratch = tempfile.mkdtemp(prefix="kdv_")
    env = dict(os.environ)
    env.update(PINNED)
    env["PYTHONPATH"] = ROOT + os.pathsep + REPO
    env["VERIF_SEED"] = str(seed)
    env["VERIF_TIER"] = tier
    env["TMPDIR"] = scratch
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    procs = []
    deadline = time.time() + budget
    if only is not None:
        jobs = 1
    for k in range(jobs):
        cwd = os.path.join(scratch, f"w{k}")
        os.makedirs(cwd)
        out = os.path.join(scratch, f"out{k}.json")
        code = ("import sys; sys.path.insert(0, %r); import vkit; "
                "vkit.worker(%r,%d,%d,%r,%d,%r,%r,%r)" %
                (ROOT, name, k, jobs, tier, seed, out, deadline, only))
        log = open(os.path.join(scratch, f"log{k}"), "wb")
        p = subprocess.Popen([PY, "-c", code], cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append((p, out, log))
    hard = deadline + 200
    results, broken = [], []
    for k, (p, out, log) in enumerate(procs):
        try:
            p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            broken.append(f"worker {k}: watchdog expired (inconclusive)")
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            with open(os.path.join(scratch, f"log{k}"), "rb") as f:
                tail = f.read()[-3000:].decode(errors="replace")
            broken.append(f"worker {k}: exit {p.returncode}\n{tail}")
    if os.environ.get("KDV_KEEP"):
        print("scratch:", scratch)
    else:
        shutil.rmtree(scratch, ignore_errors=True)

    events, keys, samples, viol, known, errors, incompl = {}, set(), [], [], {}, [], []
    done, discards = {}, {}
    evals = 0
    for r in results:
        for a, b in r["events"].items():
            events[a] = events.get(a, 0) + b
        keys.update(r["keys"])
        samples += r["samples"]
        viol += r["violations"]
        for a, b in r["known"].items():
            known[a] = known.get(a, 0) + b
        errors += r["errors"]
        incompl += r["incomplete"]
        evals += r["evals"]
        for d, src in ((done, r["done"]), (discards, r["discards"])):
            for a, b in src.items():
                d[a] = d.get(a, 0) + b
    listed = [k for k in _load_known() if k["property"] == prop and k.get("status") == "known"]
    rule = results[0]["rule"] if results else ""
    missing = []
    if results and only is None:
        for kind, mn in results[0]["require"].items():
            if events.get(kind, 0) < mn:
                missing.append(f"{kind}: {events.get(kind, 0)} < {mn}")
    rc = 0
    repdir = os.path.join(ROOT, "evidence", "replay")
    for n, v in enumerate(viol[:12]):
        os.makedirs(repdir, exist_ok=True)
        path = os.path.join(repdir, f"{prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"check": name, "tier": tier, "seed": seed, **v}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['mech']}: {v['msg'][:600]}")
        rc = 1
    for k in listed:
        print(f"KNOWN-FINDING: property={prop} {k['what']} [observed {known.get(k['id'], 0)} times this run]")
    for e in errors[:5] + broken[:5]:
        print("HARNESS-ERROR:", e)
    if rc == 0 and (errors or broken or missing):
        rc = 2
        if missing:
            print("INCONCLUSIVE: monitor reached too little:", "; ".join(missing))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(evals), "distinct_nontrivial": len(keys), "rule": rule,
            "samples": samples[:12] or [{"note": "none"}],
            "events": {a: b for a, b in sorted(events.items())},
            "cases_done": done, "cases_discarded": discards, "cases_not_reached": len(incompl),
        },
        "assumptions": results[0]["assume"] if results else [],
        "violations": len(viol), "wall_s": round(time.time() - t0, 2),
    }
    if only is None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: {evals} oracle evaluations, {len(keys)} distinct, "
          f"{sum(done.values())} cases, {sum(discards.values())} discarded, {len(incompl)} not reached, "
          f"{len(viol)} violations, {time.time()-t0:.0f}s rc={rc}")
    if os.environ.get("KDV_VERBOSE"):
        for a, b in sorted(events.items()):
            print("   ", a, b)
        for v in viol[12:]:
            print("  more:", v["mech"], v["msg"][:300])
        print("  done", done, "discards", discards)
    return rc


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None, help="soft seconds before remaining cases are skipped")
    ap.add_argument("--only", default=None, help="workload#i")
    ap.add_argument("--replay", default=None)
    a = ap.parse_args(argv)
    name = None
    for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
        if f.endswith(".py") and f.split("_")[0].upper() == a.check.upper():
            name = f[:-3]
    if name is None:
        print("unknown check", a.check)
        return 3
    only = None
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.tier, a.seed, only = r["tier"], r["seed"], (r["workload"], r["i"])
    elif a.only:
        w, i = a.only.rsplit("#", 1)
        only = (w, int(i))
    budget = a.budget or (240 if a.tier == "quick" else 640)
    return run(name, a.tier, a.seed, a.jobs, budget, only)
