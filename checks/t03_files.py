"""T03: files, hand-made tables, samples and metadata come back as they were stored, or are refused."""
import contextlib, copy, csv, io, os, pickle, string, struct, sys, warnings
import numpy as np
from vkit import workload, Discard
from vkit import sga_ref as R

PROPERTY = "T03"
RULE = "distinct stored contents (file kind, layout, values) whose loaded form was compared with the original"
REQUIRE = {"csv": 60, "array": 40, "mat": 30, "refused": 80, "named": 30, "table": 60, "sample": 40, "stencil": 80, "info": 80,
           "mapping": 80, "legacy": 4, "picture": 20}
ASSUME = ["load_csv_data is documented to return single precision: values are compared after rounding to it"]


def silent(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def numbers(rng, n, k):
    A = rng.normal(size=(n, k)) * 10.0 ** rng.integers(-6, 7, size=(n, k))
    A[rng.random((n, k)) < 0.1] = 0
    return A


@workload(quick=120, thorough=2000)
def csv_files(m, rng, i):
    """comma separated tables: every row and column, with and without a header, in any encoding"""
    from kd.dataset._base import load_csv_data, PDEDataLoader
    n, k = int(rng.integers(1, 12)), int(rng.integers(1, 7))
    A = numbers(rng, n, k)
    style = ["%.17g", "%.9e", "%+.12g", " %.10g", "%.10g "][int(rng.integers(5))]
    enc = ["utf-8", "utf-16", "latin-1", "cp1252"][int(rng.integers(4))]
    head = [["c%d" % j for j in range(k)], ["\u00fc, \u00e9%d" % j for j in range(k)], ["1.5"] * k][int(rng.integers(3))]
    header = bool(rng.random() < 0.6)
    quote = csv.QUOTE_ALL if rng.random() < 0.3 else csv.QUOTE_MINIMAL
    rows = [[style % v for v in r] for r in A]
    p = os.path.abspath(f"t{i}.csv")
    with open(p, "w", newline="", encoding=enc) as f:
        w = csv.writer(f, quoting=quote, lineterminator=["\n", "\r\n"][int(rng.integers(2))])
        if header:
            w.writerow(head)
        w.writerows(rows)
    want = np.array([[float(v) for v in r] for r in rows]).astype(np.float32)
    got = load_csv_data(p, encoding=enc, has_header=header)
    m.saw("csv")
    m.check(np.shape(got) == (n, k), "csv-shape", f"{np.shape(got)} for {(n, k)} header={header}")
    if np.shape(got) == (n, k):
        m.check(np.array_equal(np.asarray(got, dtype=np.float32), want), "csv-values", f"{np.max(np.abs(got - want))} {style} {enc}")
    if header and enc == "utf-8":
        for g in (load_csv_data(p), PDEDataLoader(os.getcwd()).load_data(file=p), PDEDataLoader(os.getcwd()).load_data(equation_name=f"t{i}")):
            m.check(np.array_equal(np.asarray(g, dtype=np.float32), want), "csv-values", "default options")
    # a damaged table is refused
    bad = [list(r) for r in rows]
    how = ["word", "ragged", "blank"][i % 3]
    r0, c0 = int(rng.integers(n)), int(rng.integers(k))
    if how == "word":
        bad[r0][c0] = ["abc", "1,5", "1.2.3", "--4"][int(rng.integers(4))]
    elif how == "ragged":
        bad[r0] = bad[r0] + ["1"]
        if n == 1:
            bad.append(["2"] * k)
    else:
        bad[r0][c0] = ""
    q = os.path.abspath(f"t{i}b.csv")
    with open(q, "w", newline="", encoding="utf-8") as f:
        csv.writer(f, quoting=csv.QUOTE_ALL).writerows(([["h"] * k] if n == 1 or i % 2 else []) + bad)
    m.saw("refused")
    m.raises(ValueError, lambda: load_csv_data(q, has_header=n == 1 or bool(i % 2)), "damaged-table-refused", how)
    os.unlink(p), os.unlink(q)
    m.distinct(("csv", n, k, style, enc, header, quote, how))


@workload(quick=90, thorough=1500)
def array_files(m, rng, i):
    """.npy, .npz and .mat: names, shapes, kinds and values"""
    import scipy.io as sio
    from kd.dataset._base import PDEDataLoader, load_mat_file, load_numpy_data
    shape = tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4))))
    kind = ["float64", "float32", "int32", "complex128", "bool"][int(rng.integers(5))]
    A = (rng.normal(size=shape) * 100).astype(kind) if kind != "complex128" else rng.normal(size=shape) + 1j * rng.normal(size=shape)
    L = PDEDataLoader(os.getcwd())
    what = i % 3
    if what == 0:
        p = os.path.abspath(f"a{i}.npy")
        np.save(p, np.asfortranarray(A) if rng.random() < 0.5 else A)
        for g in (load_numpy_data(p), L.load_data(file=p), L.load_data(equation_name=f"a{i}")):
            m.check(g.dtype == A.dtype and np.array_equal(g, A), "npy-values", f"{kind} {shape}")
        m.saw("array")
    elif what == 1:
        p = os.path.abspath(f"a{i}.npz")
        names = list(rng.permutation(["u", "x", "t", "usol", "arr_0"])[:int(rng.integers(1, 6))])
        parts = {n: rng.permutation(A.ravel()).reshape(shape) for n in names}
        (np.savez_compressed if rng.random() < 0.5 else np.savez)(p, **parts)
        for g in (load_numpy_data(p), L.load_data(file=p), L.load_data(equation_name=f"a{i}")):
            m.check(set(g.keys()) == set(names), "npz-names", f"{list(g.keys())} vs {names}")
            m.check(all(np.array_equal(g[n], parts[n]) for n in names), "npz-values", f"{kind} {shape} {names}")
        m.saw("array")
    else:
        p = os.path.abspath(f"a{i}.mat")
        M = np.atleast_2d(A)
        names = list(rng.permutation(["u", "x_", "t", "usol", "Z9"])[:int(rng.integers(1, 6))])
        parts = {n: rng.permutation(M.ravel()).reshape(M.shape) for n in names}
        sio.savemat(p, parts, format=str(rng.choice(["4", "5"])) if M.ndim == 2 and kind in ("float64", "complex128") else "5",
                    do_compression=False)
        for g in (load_mat_file(p), L.load_data(file=p), L.load_data(equation_name=f"a{i}")):
            m.check(set(g) == set(names), "mat-names", f"{set(g)} vs {names}")
            m.check(all(np.array_equal(g[n], parts[n]) for n in names if n in g), "mat-values", f"{kind} {M.shape} {names}")
        m.saw("mat")
    # what cannot be read is refused, not guessed
    m.saw("refused", 3)
    m.raises(ValueError, lambda: load_numpy_data(p[:-4] + ".bin"), "unknown-format-refused", "")
    odd = os.path.abspath(f"a{i}" + ["", ".txt", ".NPY", ".h5", ".csv.gz"][int(rng.integers(5))])
    with open(odd, "wb") as f:
        f.write(b"1,2\n3,4\n")
    m.raises(ValueError, lambda: L.load_data(file=odd), "unknown-format-refused", odd)
    m.raises(FileNotFoundError, lambda: L.load_data(file=os.path.abspath(f"gone{i}.npy")), "missing-file-refused", "")
    m.raises(FileNotFoundError, lambda: L.load_data(equation_name=f"gone{i}"), "missing-name-refused", "")
    m.raises(ValueError, lambda: L.load_data(), "nothing-asked-refused", "")
    new = os.path.abspath(f"v73_{i}.mat")
    with open(new, "wb") as f:
        f.write(b"MATLAB 7.3 MAT-file, HDF5 schema 1.00 .".ljust(124, b" ") + struct.pack("<H", 0x0200) + b"IM" + bytes(400))
    m.raises(ValueError, lambda: load_mat_file(new), "new-matlab-refused", "")
    for f in (p, odd, new):
        os.unlink(f)
    m.distinct(("array", what, kind, shape, i))


@workload(quick=45, thorough=400)
def named(m, rng, i):
    """by name: the file of that exact name, in that folder, whatever else lies there"""
    import scipy.io as sio
    from kd.dataset._base import PDEDataLoader
    home = os.path.abspath(f"nm{i}")
    os.makedirs(os.path.join(home, "sub"))
    names = ["kdv", "kdv2", "kd", "burgers", "kdv.v1"]
    truth = {}
    for n in names:
        ext = [".csv", ".npy", ".npz", ".mat"][int(rng.integers(4))]
        A = rng.normal(size=(3, 2))
        p = os.path.join(home, n + ext)
        if ext == ".csv":
            A = A.astype(np.float32)
            np.savetxt(p, A, delimiter=",", header="a,b", comments="", fmt="%.9g")
        elif ext == ".npy":
            np.save(p, A)
        elif ext == ".npz":
            np.savez(p, u=A)
        else:
            sio.savemat(p, {"u": A})
        np.save(os.path.join(home, "sub", n + ".npy"), A + 1)
        truth[n] = A
    L = PDEDataLoader(home)
    for n in names:
        g = L.load_data(equation_name=n)
        g = g["u"] if not isinstance(g, np.ndarray) else g
        m.saw("named")
        m.check(np.array_equal(g, truth[n]), "name-finds-its-file", n)
    other = os.path.join(home, "sub", "kdv.npy")
    m.check(np.array_equal(L.load_data(equation_name="burgers", file=other), truth["kdv"] + 1), "file-wins-over-name", "")
    m.distinct(("named", i))


@workload(quick=80, thorough=1000)
def tables(m, rng, i):
    """data handlers: what is read, and what cleaning leaves"""
    import pandas as pd
    from kd.data import BaseDataHandler

    class Mine(BaseDataHandler):
        def process_data(self):
            pass
    n, k = int(rng.integers(1, 15)), int(rng.integers(1, 5))
    A = np.round(rng.normal(size=(n, k)), 3)
    A = A[rng.integers(0, n, n)]                        # repeated rows
    for _ in range(int(rng.integers(0, 4))):            # rows that differ in one entry only
        p, q = rng.integers(0, n, 2)
        if p != q:
            A[p] = A[q]
            A[p, int(rng.integers(k))] += float(rng.choice([1.0, -0.001, 2.0]))
    A = np.round(A, 3)
    A[rng.random((n, k)) < 0.1] = np.nan
    df = pd.DataFrame(A, columns=[f"c{j}" for j in range(k)])
    before = df.copy(deep=True)
    if i % 2:
        p = os.path.abspath(f"h{i}.csv")
        df.to_csv(p, index=False)
        src = p
    else:
        src = df
    h = Mine(src)
    silent(h.clean_data)
    m.check(h.get_data() is None, "nothing-before-loading", str(h.get_data()))
    silent(h.load_data)
    m.saw("table")
    g = h.get_data()
    m.check(list(g.columns) == list(df.columns) and g.shape == (n, k) and np.array_equal(g.values.astype(float), A, equal_nan=True) if g is not None else False,
            "table-as-stored", f"{None if g is None else g.shape} vs {(n, k)}")
    silent(h.clean_data)
    keep, seen = [], set()
    for r in A:
        if not np.isnan(r).any() and tuple(r + 0.0) not in seen:
            seen.add(tuple(r + 0.0))
            keep.append(r)
    got = h.get_data().values.astype(float)
    m.check(got.shape[0] == len(keep) and (not keep or np.array_equal(got, np.array(keep))), "cleaning-keeps-the-rest", f"{got.shape[0]} rows for {len(keep)}")
    m.check(df.equals(before), "source-untouched", "")
    silent(h.clean_data)
    m.check(np.array_equal(h.get_data().values.astype(float), got), "cleaning-once-is-enough", "")
    m.saw("refused")
    m.raises(ValueError, lambda: silent(Mine([None, 3, {"a": [1]}, A][i % 4]).load_data), "unknown-source-refused", "")
    m.raises(AssertionError, lambda: __import__("kd.data", fromlist=["x"]).RegularData(["burgers", "nothing", "KDV"][i % 3]), "unknown-name-refused", "")
    m.distinct(("table", n, k, i % 2, len(keep)))


@workload(quick=60, thorough=600)
def samples(m, rng, i):
    """sparse samples: a split that loses and mixes nothing, and collocation points that fill the box"""
    from kd.data import SparseData
    n, d = int(rng.integers(2, 60)), int(rng.integers(2, 5))
    xt = rng.normal(size=(n, d)) * 3
    u = xt @ np.arange(1, d + 1)[:, None] + 0.25         # each value names its own point
    lo, hi = xt.min(0) - rng.random(d), xt.max(0) + rng.random(d)
    xt0, u0 = xt.copy(), u.copy()
    np.random.seed(int(rng.integers(1 << 30)))
    s = SparseData(xt, u)
    m.check(np.array_equal(s.x, xt[:, :-1]) and np.array_equal(s.t, xt[:, -1:]), "sample-columns", "")
    s.colloc_num = int(rng.integers(1, 80))
    s.process_data((lo, hi))
    D = s.get_data()
    m.saw("sample")
    key = lambda X, U: sorted(map(tuple, np.hstack([X, U])))
    both = key(np.vstack([D["X_u_train"], D["X_u_val"]]), np.vstack([D["u_train"], D["u_val"]]))
    m.check(both == key(xt, u), "split-loses-nothing", f"{len(D['X_u_train'])}+{len(D['X_u_val'])} of {n}")
    m.check(len(D["X_u_train"]) == int(n * 0.8) == len(D["u_train"]), "split-ratio", f"{len(D['X_u_train'])} of {n}")
    for part in ("train", "val"):
        X, U = D[f"X_u_{part}"], D[f"u_{part}"]
        m.check(np.allclose(X @ np.arange(1, d + 1)[:, None] + 0.25, U), "values-stay-with-points", part)
    F = D["X_f_train"]
    m.check(F.shape == (s.colloc_num + len(D["X_u_train"]), d), "collocation-count", f"{F.shape}")
    C = F[:s.colloc_num]
    m.check(np.array_equal(F[s.colloc_num:], D["X_u_train"]), "collocation-includes-data", "")
    m.check(bool(np.all(C >= lo) and np.all(C <= hi)), "collocation-inside", f"{C.min(0)} {C.max(0)} in {lo} {hi}")
    for j in range(d):
        q = np.sort(np.floor((C[:, j] - lo[j]) / (hi[j] - lo[j]) * s.colloc_num + 1e-9))
        edge = np.min(np.abs((C[:, j] - lo[j]) / (hi[j] - lo[j]) * s.colloc_num - np.round((C[:, j] - lo[j]) / (hi[j] - lo[j]) * s.colloc_num)))
        if edge > 1e-6:
            m.check(np.array_equal(q, np.arange(s.colloc_num)), "collocation-fills-every-slice", f"axis {j}")
    m.check(np.array_equal(D["lb"], lo) and np.array_equal(D["ub"], hi), "box-kept", "")
    m.check(np.array_equal(xt, xt0) and np.array_equal(u, u0), "source-untouched", "")
    m.distinct(("sample", n, d, s.colloc_num))


@workload(quick=100, thorough=1500)
def stencils(m, rng, i):
    """the stand-alone difference operators differentiate polynomials exactly, along their axis, and leave the rest alone"""
    from kd.utils.solver import FiniteDifferenceOperator as F
    from kd.utils.utils_fd import FiniteDiff
    n = int(rng.integers(6, 20))
    dx = float(10.0 ** rng.uniform(-2, 1)) * (1 if rng.random() < 0.7 else -1)
    x = float(rng.normal()) * dx + dx * np.arange(n)
    order = 1 + i % 4
    deg = {1: 2, 2: 3, 3: 4, 4: 5}[order]
    c = rng.normal(size=deg + 1) / np.abs(dx) ** np.arange(deg + 1)
    P = np.polynomial.Polynomial(c)
    u = P(x)
    want = P.deriv(order)(x)
    scale = 1e-7 * (np.max(np.abs(u)) / abs(dx) ** order + 1)
    u0 = u.copy()
    got = FiniteDiff(u, dx, order)
    m.saw("stencil")
    inner = slice(0, n) if order < 3 else slice(2, n - 2)
    m.check(np.max(np.abs(got[inner] - want[inner])) <= scale, "stencil-exact", f"FiniteDiff order {order}: {np.max(np.abs(got[inner] - want[inner]))} > {scale}")
    if order >= 3:
        m.check(not got[:2].any() and not got[-2:].any(), "stencil-edges-zero", f"order {order}")
    m.check(np.array_equal(u, u0), "source-untouched", "")
    # the operator: along the first axis of a table of unrelated columns; composed orders are exact one degree lower
    k = int(rng.integers(1, 5))
    deg = {1: 2, 2: 3, 3: 3, 4: 3}[order]
    Ps = [np.polynomial.Polynomial(rng.normal(size=deg + 1) / np.abs(dx) ** np.arange(deg + 1)) for _ in range(k)]
    U = np.stack([p(x) for p in Ps], 1)
    U0 = U.copy()
    W = np.stack([p.deriv(order)(x) if order <= deg else 0 * x for p in Ps], 1)
    for g in (F.diff(U, dx, order), F(U, dx, 1).compute(order)):
        s = 1e-7 * (np.max(np.abs(U)) / abs(dx) ** order + 1)
        m.check(g.shape == U.shape and np.max(np.abs(g - W)) <= s, "stencil-exact", f"operator order {order}: {np.max(np.abs(g - W))} > {s}")
    op = F(U, dx, 2)
    a = op.compute(order).copy()
    for o in rng.permutation([1, 2, 3, 4]):
        op.compute(int(o))
    m.check(np.allclose(op.compute(order), a, rtol=1e-12, atol=0), "stencil-reusable", f"order {order}")
    m.check(np.array_equal(U, U0), "source-untouched", "")
    m.saw("refused")
    m.raises(ValueError, lambda: F.diff(U, dx, [0, 5, -1, 6][i % 4]), "unknown-order-refused", "")
    m.distinct(("stencil", n, order, k, dx))


def word(rng):
    return "".join(rng.choice(list(string.ascii_letters + " .,\u00e9")) for _ in range(int(rng.integers(0, 12))))


@workload(quick=120, thorough=1500)
def info(m, rng, i):
    """data-set descriptions: dictionaries, copies, updates, files"""
    from kd.dataset._info import DatasetInfo
    fields = ["description", "citation", "homepage", "license", "author", "version"]
    d = {f: word(rng) for f in fields if rng.random() < 0.7}
    kw = [word(rng).replace(",", "") for _ in range(int(rng.integers(0, 4)))]
    style = i % 3
    if style == 0:
        d["keywords"] = list(kw)
    elif style == 1 and kw:
        d["keywords"] = " , ".join(kw)
    elif style == 2:
        d["keywords"] = None
    a = DatasetInfo.from_dict({**d, "unknown": 1, "_x": 2})
    m.saw("info")
    want = {f: d.get(f, "") for f in fields}
    want["keywords"] = list(kw) if style == 0 else [w.strip() for w in kw] if style == 1 and kw else []
    m.check(a.to_dict() == want, "info-from-dictionary", f"{a.to_dict()} vs {want}")
    b, c = a.copy(), DatasetInfo.from_dict(a.to_dict())
    m.check(a == b == c and not a != b and a != "x" and a != want, "info-equality", "")
    b.keywords.append("new")
    m.check(a.to_dict() == want and a != b, "info-copy-independent", f"{a.keywords}")
    t = a.to_dict()
    t["keywords"].append("z")
    m.check(a.to_dict() == want, "info-dictionary-independent", str(a.keywords))
    f = fields[int(rng.integers(6))]
    c.update(**{f: "changed!", "license": "L"})
    m.check(c.to_dict() == {**want, f: "changed!" if f != "license" else "L", "license": "L"}, "info-update", f) if f != "license" else None
    m.check(a != c, "info-equality", f)
    m.saw("refused")
    m.raises(AttributeError, lambda: a.update(nonsense=1), "unknown-field-refused", "")
    m.check(all(str(v) in repr(a) for v in want.values()), "info-shown", repr(a))
    text = word(rng) + "\n" + word(rng) + "\u2202u"
    p = f"d{i}.txt"
    enc = ["utf-8", "utf-16"][int(rng.integers(2))]
    with open(p, "w", encoding=enc, newline="") as fh:
        fh.write(text)
    for q in (p, os.path.abspath(p), "./" + p):
        m.check(a.load_descr(q, encoding=enc) == text, "description-as-stored", q)
    os.unlink(p)
    m.raises(FileNotFoundError, lambda: a.load_descr(p), "missing-file-refused", "")
    m.distinct(("info", i))


@workload(quick=120, thorough=1500)
def mapping(m, rng, i):
    """attribute dictionaries behave as the dictionary they are, whatever sequence of uses"""
    from kd.utils.attrdict import Attrdict
    keys = ["a", "b", "lr", "items_", "x1", "name"]
    start = {k: int(rng.integers(99)) for k in keys if rng.random() < 0.5}
    A, D = Attrdict(start) if i % 2 else Attrdict(**start), dict(start)
    for _ in range(int(rng.integers(5, 40))):
        k = keys[int(rng.integers(len(keys)))]
        op = int(rng.integers(8))
        m.saw("mapping")
        if op == 0:
            v = int(rng.integers(99))
            setattr(A, k, v)
            D[k] = v
        elif op == 1:
            v = [int(rng.integers(99))]
            A[k] = v
            D[k] = v
        elif op == 2:
            if k in D:
                m.check(getattr(A, k) == D[k] == A[k] and hasattr(A, k), "attribute-is-the-entry", k)
            else:
                m.raises(AttributeError, lambda: getattr(A, k), "no-such-attribute", k)
                m.raises(KeyError, lambda: A[k], "no-such-entry", k)
        elif op == 3:
            if k in D:
                delattr(A, k)
                del D[k]
            else:
                m.raises(AttributeError, lambda: delattr(A, k), "no-such-attribute", k)
        elif op == 4:
            A.update(D2 := {k: 7, "b": 8})
            D.update(D2)
        elif op == 5:
            m.check(A.pop(k, None) == D.pop(k, None), "pop", k)
        elif op == 6:
            B = [copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o)), lambda o: Attrdict(o)][int(rng.integers(4))](A)
            m.check(dict(B) == D and type(B) is Attrdict, "copies-are-equal", str(dict(B)))
            B["extra"] = 1
            m.check("extra" not in A and B.extra == 1, "copies-are-separate", "")
        else:
            m.check(set(D) <= set(dir(A)) and sorted(A.keys()) == sorted(D) and len(A) == len(D), "listing", "")
        m.check(dict(A) == D and A == D, "entries-agree", f"{dict(A)} vs {D}")
    m.distinct(("mapping", tuple(sorted(start)), i))


@workload(quick=4, thorough=8, timeout=200)
def legacy(m, rng, i):
    """the older entry points give the same data as the catalogue, and data their equation holds on"""
    from kd.dataset import load_pde
    from kd.dataset import _base as B
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for fn, name in ((B.load_burgers_equation, "burgers"), (B.load_kdv_equation, "kdv")):
            a, b = fn(), silent(load_pde, name)
            m.check(np.allclose(np.ravel(a.x), b.x) and np.allclose(np.ravel(a.t), b.t) and np.array_equal(np.asarray(a.usol).real, np.asarray(b.usol).real),
                    "older-loader-agrees", f"{name}: {a.usol.shape} {b.usol.shape}")
            m.check(a.usol.shape == (len(np.ravel(a.x)), len(np.ravel(a.t))), "older-loader-shape", name)
    m.check(sum(issubclass(x.category, DeprecationWarning) for x in w) >= 2, "older-loader-says-so", str([str(x.message)[:50] for x in w]))
    from kd.data import RegularData
    terms = {"chafee-infante": lambda u, ux, uxx, uxxx: [u, u ** 3, uxx], "Burgers": lambda u, ux, uxx, uxxx: [u * ux, uxx],
             "Kdv": lambda u, ux, uxx, uxxx: [u * ux, uxxx]}
    for name in terms:
        d = RegularData(name)
        silent(d.load_data)
        D = d.get_data()
        u, ut, x = np.asarray(D["u"]).real, np.asarray(D["ut"]), np.ravel(D["X"][0])
        m.saw("legacy")
        m.check(u.shape == ut.shape and u.shape[0] == len(x) and D["n_input_dim"] == 1 and d.sym_true == D["sym_true"], "inner-data", f"{name} {u.shape} {len(x)}")
        import scipy.io as sio
        home = os.path.dirname(sys.modules["kd.data"].__file__)
        read = {"chafee-infante": lambda: np.load(os.path.join(home, "data_file", "chafee_infante_t.npy")),
                "Burgers": lambda: sio.loadmat(os.path.join(home, "data_file", "burgers.mat"))["t"],
                "Kdv": lambda: sio.loadmat(os.path.join(home, "dataset", "data", "Kdv.mat"))["tt"]}
        tt = np.ravel(read[name]())
        rate = (u[:, 2:] - u[:, :-2]) / (tt[2:] - tt[:-2])
        m.check(np.allclose(ut[:, 1:-1], rate, rtol=1e-6, atol=1e-9 * np.abs(rate).max()), "inner-data-rate-of-change", f"{name}: {np.abs(ut[:, 1:-1] - rate).max()}")
        dx = x[1] - x[0]
        f1 = lambda a: (a[2:] - a[:-2]) / (2 * dx)
        ux, uxx = f1(u), (u[2:] - 2 * u[1:-1] + u[:-2]) / dx ** 2
        uxxx = np.zeros_like(ux)
        uxxx[1:-1] = (uxx[2:] - uxx[:-2]) / (2 * dx)
        cut = lambda a: a[4:-4, 4:-4]
        cols = [cut(v[1:-1] if v.shape[0] == u.shape[0] else v) if v.shape[0] == u.shape[0] else v[3:-3, 4:-4] for v in terms[name](u[1:-1], ux, uxx, uxxx)]
        cols = [v[:].ravel() for v in [a[3:-3, 4:-4] if a.shape[0] == ux.shape[0] else a for a in terms[name](u[1:-1], ux, uxx, uxxx)]]
        y = ut[1:-1][3:-3, 4:-4].ravel()
        A = np.stack(cols, 1)
        c = np.linalg.lstsq(A, y, rcond=None)[0]
        r2 = 1 - np.sum((A @ c - y) ** 2) / np.sum(y ** 2)
        m.check(r2 > 0.9, "inner-data-obeys-its-equation", f"{name}: {r2} {c}")
    m.distinct(("legacy", i))


@workload(quick=40, thorough=300)
def pictures(m, rng, i):
    """the data set's own picture shows each value at its coordinates; its text names it"""
    import matplotlib.pyplot as plt
    from kd.dataset import PDEDataset
    nx, nt = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    up = lambda n: np.linspace(*(np.sort(rng.normal(size=2)) * 5 + [0, 1]), n)
    x, t = up(nx), up(nt)
    u = rng.normal(size=(nx, nt))
    if i % 3 == 1:
        ds = PDEDataset(equation_name="eq \u2202", fields_data={"u": u.T.copy()}, coords_1d={"x": x, "t": t}, axis_order=["t", "x"], target_field="u", lhs_axis="t")
    else:
        if i % 3 == 2:
            if rng.random() < 0.7:
                x, u = x[::-1].copy(), u[::-1].copy()
            if rng.random() < 0.5:
                t, u = t[::-1].copy(), u[:, ::-1].copy()
        ds = PDEDataset(equation_name="eq \u2202", x=x, t=t, usol=u)
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ds.plot_solution()
    ax = plt.gcf().axes[0]
    m.saw("picture")
    im = ax.images[0]
    A = np.asarray(im.get_array())
    l, r, b, tp = im.get_extent()
    if im.origin == "upper":
        A = A[::-1]
    at = lambda v, lo, hi, n: min(n - 1, max(0, int((v - lo) / (hi - lo) * n)))
    wrong = 0
    for p in range(nx):
        for q in range(nt):
            wrong += A[at(x[p], b, tp, A.shape[0]), at(t[q], l, r, A.shape[1])] != u[p, q]
    m.check(A.shape == (nx, nt) and not wrong, "picture-value-at-its-place", f"{wrong} of {nx * nt} misplaced ({['legacy', 'n-d', 'x downwards'][i % 3]})")
    m.check(ax.get_xlabel().lower().startswith("time") and ax.get_ylabel().lower().startswith("space") and "eq \u2202" in ax.get_title(), "picture-labels", "")
    plt.close("all")
    m.check("eq \u2202" in repr(ds) and str(ds.get_size()) in repr(ds), "text-names-the-data", repr(ds))
    m.distinct(("picture", nx, nt, i % 3))
