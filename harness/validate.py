"""Validation: decorators, guarded functions, splitters."""
import array

import numpy as np
import pandas as pd

import rec

LIB = {"compute_entropies": ["x", "y", "bins"], "mutual_info": ["x", "y"], "var_info": ["x", "y"], "kl_divergence_xy": ["x", "y"], "get_info_distance_matrix": ["X"],
       "get_corr_distance_matrix": ["X"], "corr_to_dist": ["corr"], "gap_statistic": ["dist", "labels"], "silhouette_tstat": ["dist", "labels"]}
N = 12


def make(v, g, role=None):
    """A value of the abstract type; role gives data the function can work with."""
    t, s = v["t"], tuple(v["s"])
    if t == "none":
        return None
    if t in ("list", "number", "index"):
        xs = {"list": [[1.0, 2.0], [2.0, 3.0], (1.0, 2.0), {"a": 1}, "text", {1.0, 2.0}, range(4), b"bytes", iter([1.0, 2.0]), np.ndarray, pd.Series, memoryview(np.ones(3)), array.array("d", [1.0, 2.0]), [np.ones(3), np.ones(3)]],
              "number": [3, 2.5, True, 1j, np.float64(2.0), np.int64(3), float("nan"), np.datetime64("2020-01-01")],
              "index": [pd.RangeIndex(4), pd.Index([1.0, 2.0, 3.0]), pd.date_range("2020-01-01", periods=4), pd.MultiIndex.from_product([[1, 2], [3, 4]]), pd.array([1.0, 2.0, 3.0]), pd.Categorical(["a", "b"]),
                        pd.array([1, 2, None], dtype="Int64"), pd.period_range("2020", periods=3, freq="M"), pd.Series([1.0, 2.0]).rolling(2), pd.DataFrame({"a": [1, 2], "b": [1, 2]}).groupby("a"), pd.Timestamp("2020-01-01")]}[t]
        return xs[int(g.integers(0, len(xs)))]
    if role == "labels" and len(s) == 1:
        a = np.arange(s[0]) % 3
    elif role in ("dist", "corr") and len(s) == 2 and s[0] == s[1]:
        a = np.abs(g.normal(size=s)) * 0.1 + 0.1
        a = np.triu(a, 1) + np.triu(a, 1).T + (np.eye(s[0]) if role == "corr" else 0)
    else:
        a = g.normal(size=s)
    if t == "series":
        return pd.Series(a, index=["r%d" % i for i in range(len(a))] if g.random() < 0.5 else None)
    if t == "frame":
        return pd.DataFrame(a)
    return np.asarray(a)


def V(t, *s):
    return dict(t=t, s=list(s))


BAD = [V("list"), V("number"), V("index"), V("array"), V("array", 1), V("array", 0), V("series", 1), V("array", 3, 1), V("frame", N, 1), V("array", 2, 3, 4), V("array", 1, 1), V("frame", 1, 1), V("series", 0), V("frame", 0, 0), V("array", 0, 1)]


def generate(a, behs, rnd):
    rnd.shuffle(behs)
    for b in behs[:9000 if not a.thorough else 10 ** 6]:
        yield dict(kind="deco", b=b, s=rnd.randrange(1 << 30))
    for f, ps in LIB.items():
        for i in range(120 if not a.thorough else 1500):
            yield dict(kind="lib", f=f, s=rnd.randrange(1 << 30))
    for i in range(2500 if not a.thorough else 20000):
        yield dict(kind="split", s=rnd.randrange(1 << 30))


def ex_deco(case):
    from quantfinlib.util import validate_frame_or_2Darray, validate_series_or_1Darray
    g = np.random.default_rng(case["s"])
    b = case["b"]
    log = []
    result = object()

    def target(x, y):
        """What it does."""
        log.append((x, y))
        return result
    f = target
    for gd in reversed(b["guards"]):
        f = (validate_series_or_1Darray if gd["g"] == 1 else validate_frame_or_2Darray)(*gd["names"])(f)
    pos = [make(v, g) for v in b["pos"]]
    kw = {q["n"]: make(q["v"], g) for q in b["kw"]}
    z = rec.outcome(lambda: f(*pos, **kw))
    same = False
    if z[0] == "ok" and len(log) == 1:
        want = dict(zip("xy", pos))
        want.update(kw)
        same = z[1] is result and log[0][0] is want.get("x") and log[0][1] is want.get("y")
    return dict(kind="deco", guards=b["guards"], pos=b["pos"], kw=b["kw"], r="ok" if z[0] == "ok" else z[1], same=same, ran=len(log) > 0,
                meta=getattr(f, "__name__", "") == "target" and f.__doc__ == "What it does.")


def ex_lib(case):
    import quantfinlib.clustering.metrics as cm
    import quantfinlib.distance.distance_matrix as dm
    import quantfinlib.distance.information as inf
    g = np.random.default_rng(case["s"])
    name = case["f"]
    f = next(getattr(m, name) for m in (inf, dm, cm) if hasattr(m, name))
    good = {"x": [V("series", N), V("array", N)], "y": [V("series", N), V("array", N)], "bins": [V("number")], "X": [V("frame", N, 3), V("array", N, 2), V("array", N, 3)],
            "corr": [V("frame", 4, 4), V("array", 3, 3)], "dist": [V("frame", N, N), V("array", N, N)], "labels": [V("series", N), V("array", N)]}
    vals = []
    for p in LIB[name]:
        vals.append(BAD[int(g.integers(0, len(BAD)))] if p != "bins" and g.random() < 0.3 else good[p][int(g.integers(0, len(good[p])))])
    # a vector where a matrix is wanted and the other way round
    args = []
    for p, v in zip(LIB[name], vals):
        if p != "bins" and v in BAD:
            if g.random() < 0.3:
                v = {"x": V("array", N, 2), "y": V("frame", N, 2), "X": V("series", N), "corr": V("array", N), "dist": V("series", N), "labels": V("array", N, 2)}[p]
        args.append((p, v))
    np_ = int(g.integers(0, len(args) + 1))
    mk = lambda p, v: 4 if p == "bins" else make(v, g, p)
    pos = [mk(p, v) for p, v in args[:np_]]
    kw = [(p, mk(p, v)) for p, v in args[np_:]]
    kw = [kw[i] for i in g.permutation(len(kw))]
    z = rec.outcome(lambda: f(*pos, **dict(kw)))
    av = dict(args)
    return dict(kind="lib", f=name, pos=[v for _, v in args[:np_]], kw=[dict(n=p, v=av[p]) for p, _ in kw], r="ok" if z[0] == "ok" else z[1])


def ex_split(case):
    from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
    g = np.random.default_rng(case["s"])
    n = 20
    pick = lambda xs: xs[int(g.integers(0, len(xs)))]
    X = {"array": g.normal(size=(n, 2)), "frame": pd.DataFrame(g.normal(size=(n, 2))), "list": [[1.0, 2.0]] * n, "series": pd.Series(g.normal(size=n)), "none": None, "tuple": ((1,),) * n}
    Y = {"none": None, "array": g.normal(size=n), "series": pd.Series(g.normal(size=n)), "list": [1.0] * n, "frame": pd.DataFrame({"y": [1.0] * n}), "tuple": (1,) * n}
    fault = pick(["no", "no", "x", "y", "g", "sort", "sort", "purge", "embargo", "two"])
    x = pick(["array", "frame"]) if fault not in ("x", "two") else pick(["list", "series", "none", "tuple"])
    y = pick(["none", "array", "series"]) if fault not in ("y", "two") else pick(["list", "frame", "tuple"])
    gk = pick(["none", "array", "series", "index"]) if fault not in ("g", "sort") else (pick(["list", "frame", "tuple", "text"]) if fault == "g" else pick(["array", "series", "index"]))
    base = np.arange(n)
    if g.random() < 0.3:
        base = np.sort(g.integers(0, 15, size=n))
        base[:4] = np.arange(4) - 20
        base = np.concatenate([base[:4], base[4:] + np.arange(n - 4)])
    if fault == "sort":
        i, j = sorted(int(v) for v in g.choice(np.flatnonzero(np.diff(base) > 0), size=1)) * 2
        base = base.copy()
        base[i], base[i + 1] = base[i + 1], base[i]
    dates = pd.DatetimeIndex(np.datetime64("2020-01-01") + (base - base.min()).astype("timedelta64[D]"))
    grp = {"none": None, "array": base, "series": pd.Series(base, index=np.arange(n)[::-1]), "index": dates, "list": list(base), "frame": pd.DataFrame({"g": base}), "tuple": tuple(base), "text": "groups"}[gk]
    freq = "D" if gk == "index" else None
    amount = lambda f: {"ok": int(g.integers(0, 3)), "negative": -int(g.integers(1, 4)), "type": pick(["1", 1.5, None, [1], 2.0])}[f]
    purge, emb = (pick(["negative", "type"]) if fault == "purge" else "ok"), (pick(["negative", "type"]) if fault == "embargo" else "ok")
    if purge == "negative" and g.random() < 0.3:
        pa = pd.Timedelta(-1, unit="D")
    else:
        pa = amount(purge)
    ea = amount(emb)
    walk = g.random() < 0.5
    if purge != "ok" or emb != "ok":
        freq = None if purge == "type" or emb == "type" else freq

    def go():
        if walk:
            s = WalkForward(n_embargo=ea, n_purge=pa, train_window=6, test_window=3, split_type=pick(["expanding", "rolling"]), freq=freq)
        else:
            s = TimeAwareKFold(n_folds=3, n_embargo=ea, n_purge=pa, freq=freq)
        kw = {}
        if y != "none" or g.random() < 0.5:
            kw["y"] = Y[y]
        if gk != "none" or g.random() < 0.5:
            kw["groups"] = grp
        return len(list(s.split(X[x], **kw) if g.random() < 0.5 else s.split(X[x], kw.get("y"), kw.get("groups"))))
    z = rec.outcome(go)
    return dict(kind="split", x=x, y=y, g=gk, sorted=fault != "sort", purge=purge, embargo=emb, r="ok" if z[0] == "ok" else z[1])


def execute(case):
    return {"deco": ex_deco, "lib": ex_lib, "split": ex_split}[case["kind"]](case)


if __name__ == "__main__":
    rec.main(generate, execute)
