"""Sweeps of TimeAwareKFold."""
import numpy as np
import pandas as pd

import rec

UNITS = {"D": 86400, "h": 3600, "min": 60, "s": 1, "W": 604800}
KINDS = ["int", "int32", "uint8", "uint64", "series_u16", "float", "series", "series_shuffled", "series_str", "series_date", "dti", "dti_freq", "series_dt",
         "series_dt_shuffled", "dti_tz"]


def mk(g, u, nf, emb, pur, lf, kind, freq=None, x="np", y="none", call="kw"):
    return dict(c=dict(g=g, u=u, nf=nf, emb=emb, pur=pur, lf=lf), kind=kind, freq=freq, x=x, y=y, call=call)


def generate(a, behs, rnd):
    seen = set()
    for b in behs:
        c = b["cfg"]
        key = (tuple(c["g"]), c["nf"], c["emb"], c["pur"], c["lf"])
        if key in seen:
            continue
        seen.add(key)
        kind = rnd.choice(["int", "series_shuffled", "dti", "series_dt_shuffled"])
        freq = None
        u, g = 1, c["g"]
        if kind in ("dti", "series_dt_shuffled"):
            freq = rnd.choice(list(UNITS))
            u = UNITS[freq]
            g = [v * u for v in g]
        yield mk(g, u, c["nf"], c["emb"], c["pur"], c["lf"], kind, freq, rnd.choice(["np", "df"]), rnd.choice(["none", "np", "series"]))
    total = 2500 if not a.thorough else 25000
    for i in range(total):
        n = rnd.choice([rnd.randint(1, 12), rnd.randint(5, 40), rnd.randint(20, 150 if not a.thorough else 400)])
        if i % 100 == 0:
            n = rnd.choice([257, 300, 513, 700])
        nf = rnd.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, n, max(2, n // 2)])
        nf = max(2, min(nf, n + 1, 40 if i % 50 else 70))
        if n > 200:
            nf = rnd.choice([2, 3, 5, 10])
        style = rnd.choice(["none", "uniq", "dup", "dupheavy", "gaps", "neg"])
        g, v = [], 0
        for i in range(n):
            g.append(v)
            if style in ("none", "uniq"):
                v += 1
            elif style == "dup":
                v += rnd.choice([0, 0, 1, 1, 2])
            elif style == "dupheavy":
                v += 1 if rnd.random() < 0.25 else 0
            else:
                v += rnd.choice([1, 1, 1, 1, 3, 5, 0])
        if style == "neg":
            s = rnd.randint(-50, 50)
            g = [w + s for w in g]
        big = rnd.random() < 0.15
        hi = max(1, n // 2) if big else min(6, n)
        emb, pur = rnd.choice([0, rnd.randint(0, hi)]), rnd.choice([0, rnd.randint(0, hi)])
        kind = "none" if style == "none" else rnd.choice(KINDS)
        freq, u = None, 1
        if kind.startswith("dti") or kind.startswith("series_dt"):
            freq = rnd.choice(list(UNITS))
            u = UNITS[freq]
            off = rnd.choice([0, 0, 37]) if u > 60 else 0
            g = [w * u + (off if rnd.random() < 0.3 else 0) for w in g]
            g.sort()
        elif kind == "float":
            u = 2
        elif kind in ("uint8", "uint64", "series_u16"):
            g = [w - g[0] for w in g]
        if kind == "float":
            g = [2 * w + (1 if rnd.random() < 0.3 else 0) for w in g]
            g.sort()
        elif kind == "none" and rnd.random() < 0.3:
            freq = "D"
        yield mk(g, u, nf, emb, pur, rnd.random() < 0.4, kind, freq, rnd.choice(["np", "df"]),
                 rnd.choice(["none", "np", "series"]), rnd.choice(["kw", "pos"]))


def index_for(kind, n, rs):
    if kind.endswith("shuffled"):
        return rs.permutation(n)
    if kind == "series_str":
        return ["k%d" % (i * 7 % n) for i in range(n)]
    if kind == "series_date":
        return pd.date_range("2001-01-31", periods=n, freq="D")[::-1]
    return pd.RangeIndex(5, 5 + n) if n % 2 else pd.RangeIndex(n)


def container(g, kind, u, seed):
    n = len(g)
    rs = np.random.RandomState(seed)
    if kind == "none":
        return None
    if kind == "int":
        return np.array(g, dtype=np.int64)
    if kind == "int32":
        return np.array(g, dtype=np.int32)
    if kind in ("uint8", "uint64"):
        return np.array(g, dtype=kind if max(g) < 256 else "uint16")
    if kind == "series_u16":
        return pd.Series(np.array(g, dtype=np.uint16), index=index_for(kind, n, rs))
    if kind == "float":
        return np.array(g, dtype=float) / 2
    if kind.startswith("dti") or kind.startswith("series_dt"):
        t = pd.Timestamp("2020-02-27") + pd.to_timedelta(np.array(g, dtype="int64"), unit="s")
        t = pd.DatetimeIndex(t)
        if kind == "dti_tz":
            t = t.tz_localize("UTC")
        if kind.startswith("dti"):
            return t
        return pd.Series(t, index=index_for(kind, n, rs))
    return pd.Series(np.array(g, dtype=np.int64), index=index_for(kind, n, rs))


def data(n, x, y, rs):
    X = rs.randn(n, 2)
    if x == "df":
        ix = [rs.permutation(n) + 3, pd.RangeIndex(n), np.arange(n) * 10 + 7, pd.date_range("2015-01-31", periods=n, freq="ME"),
              ["r%d" % (i % 5) for i in range(n)], np.arange(n)[::-1], np.arange(n) // 2, pd.MultiIndex.from_arrays([np.arange(n) // 3, np.arange(n)]),
              pd.date_range("2015-01-31", periods=n, freq="D")[::-1]][rs.randint(9)]
        X = pd.DataFrame(X, index=ix, columns=["a", "b"])
    Y = None if y == "none" else (np.arange(n) if y == "np" else pd.Series(np.arange(n) * 1.0, index=rs.permutation(n)))
    return X, Y


def execute(case):
    from quantfinlib.train_test_split import TimeAwareKFold
    c = case["c"]
    n = len(c["g"])
    rs = np.random.RandomState(n * 31 + c["nf"])
    G = container(c["g"], case["kind"], c["u"], n)
    X, Y = data(n, case["x"], case["y"], rs)
    warm = n % 3 == 1                                        # the object has been used on other data before
    if n % 4 == 2:                                           # any Integral will do
        c = dict(c, nf=np.int64(c["nf"]), emb=np.int64(c["emb"]), pur=np.int64(c["pur"]))
    if case["call"] == "pos":
        cv = TimeAwareKFold(c["nf"], c["emb"], c["pur"], c["lf"], case["freq"])
    else:
        cv = TimeAwareKFold(n_folds=c["nf"], n_embargo=c["emb"], n_purge=c["pur"], look_forward=c["lf"], freq=case["freq"])
    if warm:
        rec.outcome(lambda: [next(i) for i in [cv.split(np.zeros((n + 5, 1)), None, container([2 * c["u"] * (i // 2) for i in range(n + 5)], case["kind"], c["u"], n + 5))] * 2])
    ys, end = [], "stop"
    try:
        it = cv.split(X, Y, G) if case["call"] == "pos" else cv.split(X=X, y=Y, groups=G)
        for tr, te in it:
            ys.append({"tr": [int(i) for i in tr], "te": [int(i) for i in te]})
            if len(ys) > c["nf"] + 3:
                end = "endless"
                break
    except rec.CaseTimeout:
        raise
    except Exception as e:
        end = rec.exc_class(e)
    nsp = int(cv.get_n_splits(X, Y, G)) if n % 2 else int(cv.get_n_splits())
    return {"c": case["c"], "ys": ys, "end": end, "nsp": nsp, "in": {k: case[k] for k in ("kind", "freq", "x", "y", "call")}}


if __name__ == "__main__":
    rec.main(generate, execute)
