"""Sessions of calls on simulation models."""
import copy
import pickle
import random

import numpy as np
import pandas as pd

import rec
from rec import fl, fls, mat

DAY0 = pd.Timestamp("1970-01-01")
WD = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"]
FREQS = ["D", "B", "W", "ME", "MS", "QE", "QS", "YE", "YS"]
NOF = {"k": "none", "a": 0}


def fstr(f):
    return "W-" + WD[f["a"]] if f["k"] == "W" else ("%dD" % f["a"] if f["k"] == "nD" else f["k"])


def rfreq(rnd, allow_n=False):
    k = rnd.choice(FREQS + ["D", "B", "B"] + (["nD"] if allow_n else []))
    return {"k": k, "a": rnd.randint(0, 6) if k == "W" else (rnd.randint(2, 5) if k == "nD" else 0)}


# ---- choosing cases -------------------------------------------------------------------------------------------
def num(rnd, lo, hi):
    return round(rnd.uniform(lo, hi), rnd.choice([0, 1, 2, 4, 12]))


def rparams(rnd, kind, d, scalar_ok=True):
    n = 1 if d == 1 else d
    vol = [abs(num(rnd, 0.01, 1.5)) or 0.2 for _ in range(n)]
    if rnd.random() < 0.06:
        vol = [0.0] * n
    if scalar_ok and d > 1 and rnd.random() < 0.15:
        vol = vol[:1]
    p = {"kind": kind, "vol": vol, "p2": [], "p1": [num(rnd, -2, 2) for _ in range(d)]}
    if kind == "OU":
        p["p2"] = [abs(num(rnd, 0.05, 20)) or 1.0 for _ in range(d)]
        if rnd.random() < 0.15:
            p["p2"] = p["p2"][:1]
        p["p1"] = [num(rnd, -20, 20) for _ in range(d)]
    cor = []
    if d > 1 and rnd.random() < 0.65:
        rs = np.random.RandomState(rnd.randint(0, 10 ** 6))
        A = rs.randn(d, d) + rnd.choice([0, 0.5, 1]) * rs.randn(d, 1)
        C = A @ A.T + 0.05 * np.eye(d)
        s = np.sqrt(np.diag(C))
        C = np.round(C / np.outer(s, s), 6)
        np.fill_diagonal(C, 1.0)
        cor = C.tolist()
    p["cor"] = cor
    return p


def rdata(rnd, kind, d, cont=None, rows=None, dated=None, freq=None, like=None):
    T = rows or rnd.choice([rnd.randint(8, 14), rnd.randint(8, 40)])
    if d > 4 and not rows:
        T += 2 * d
    if not rows and rnd.random() < 0.05:
        T = rnd.choice([rnd.randint(60, 130), rnd.randint(200, 400), 257])
    rs = np.random.RandomState(rnd.randint(0, 2 ** 31 - 1))
    E = rs.randn(T, d) @ (np.eye(d) + 0.6 * np.triu(rs.randn(d, d), 1))
    if kind == "GBM":
        X = 10 ** rs.uniform(-1, 3, size=d) * np.exp(np.cumsum(E * rs.uniform(0.001, 0.3, size=d) + rs.uniform(-0.02, 0.02, size=d), axis=0))
    elif kind == "OU":
        a = rs.uniform(0.2, 0.97, size=d)
        mu = rs.uniform(-5, 5, size=d)
        X = np.zeros((T, d))
        X[0] = mu + rs.randn(d)
        for t in range(1, T):
            X[t] = mu + a * (X[t - 1] - mu) + 0.4 * E[t]
    else:
        X = np.cumsum(E * rs.uniform(0.01, 3, size=d) + rs.uniform(-0.5, 0.5, size=d), axis=0) + rs.uniform(-100, 100, size=d)
    r = rnd.random()
    if r < 0.12:                                   # equal steps
        X = X.round(1) if kind != "GBM" else 64.0 * 1.015625 ** np.cumsum(rs.choice([-1, 0, 1, 1], size=(T, d)), axis=0)
    elif r < 0.16 and kind == "BM":
        X = X.round(0)
    elif r < 0.2:
        X = X * rnd.choice([1e-5, 1e5])
    elif r < 0.24 and kind == "BM" and d == 1:
        X = np.full((T, 1), 4.25)
    elif r < 0.28 and d > 1 and kind == "OU":      # one column that does not revert
        X[:, rnd.randrange(d)] = np.where(np.arange(T) % 2, 1.0, -1.0) * rs.uniform(1, 2, size=T) + 3
    if kind == "BM" and d > 1 and (np.diff(X, axis=0).std(axis=0) < 1e-9).any() or T > 4 and d > 1 and np.linalg.matrix_rank(np.diff(np.log(X) if kind == "GBM" else X, axis=0) - 0.1) < d:
        X = X * (1 + 0.01 * rs.rand(T, d))
    ints = bool((X == X.round(0)).all() and kind != "GBM" and rnd.random() < 0.5)
    cont = cont or rnd.choice(["ndarray1", "ndarray", "Series", "DataFrame", "DataFrame"])
    if d > 1 and cont in ("ndarray1", "Series"):
        cont = rnd.choice(["ndarray", "DataFrame"])
    idx = dict(has=False, min=0, max=0, tod=0, freq=NOF, name="none")
    dated = (rnd.random() < 0.6) if dated is None else dated
    if cont in ("Series", "DataFrame") and dated:
        f = freq or (rfreq(rnd) if rnd.random() < 0.85 else NOF)
        if T > 150 and f["k"] in ("YE", "YS", "QE", "QS"):
            f = {"k": "D", "a": 0}
        idx = dict(has=True, min=rnd.randint(7000, 20000), max=0, tod=rnd.choice([0, 0, 0, 34200]), freq=f, name=rnd.choice(["none", "Date", "when"]))
    cols = [rnd.choice(["A", "px", "X"]) + str(i) for i in range(d)] if cont in ("Series", "DataFrame") else []
    if cols and rnd.random() < 0.1:
        cols = rnd.choice([[str(3 - i) for i in range(d)], ["z%d" % (9 - i) for i in range(d)], ["dup"] * d])
    return dict(x=mat(X), cont=cont, cols=cols, idx=idx, irr=rnd.randint(1, 10 ** 6), ints=ints)


def rargs(rnd, d, mode="mixed", pos=False):
    """Arguments of path_sample.  mode: 'explicit' passes x0 and dt."""
    a = dict(x0k="value", x0=[], dt=[], steps=rnd.choice([0, 1, 2, 3, rnd.randint(4, 12), rnd.randint(5, 30)]), paths=rnd.choice([1, 1, 2, 3, rnd.randint(1, 9)]),
             ls=[], lf=NOF, cols=[], inc=rnd.random() < 0.7, seed=str(rnd.choice([0, 1, 7, 42, rnd.randint(0, 10 ** 6)])), x0c=rnd.choice(["plain", "plain", "np", "list", "df", "series"]),
             call=rnd.choice(["kw", "kw", "pos"]))
    if rnd.random() < 0.06:
        a["steps"], a["paths"] = rnd.choice([(252, 1), (rnd.randint(40, 300), rnd.randint(1, 3)), (rnd.randint(1, 4), rnd.randint(10, 45))])
    if rnd.random() < 0.15:
        a["seed"] = str(rnd.choice([2 ** 31 - 1, 2 ** 32, 2 ** 63, 10 ** 12 + 7]))
    a["omit"] = a["steps"] == 252
    if a["steps"] > 60:
        a["dt"] = [fl(1 / 252)]
    a["x0"] = [(abs(num(rnd, 0.5, 200)) or 3.0) if pos else num(rnd, -50, 50) for _ in range(1 if rnd.random() < 0.2 else d)]
    a["dt"] = [fl(rnd.choice([1 / 252, 1 / 12, 0.25, 1.0, 1.5, num(rnd, 0.001, 2) or 0.1]))] if a["steps"] < 61 else [fl(rnd.choice([1 / 252, 1 / 365]))]
    if mode != "explicit":
        a["x0k"] = rnd.choice(["none", "first", "last", "value"])
        if rnd.random() < 0.6:
            a["dt"] = []
    if rnd.random() < 0.45:
        a["ls"], a["lf"] = [rnd.randint(7000, 20000)], rfreq(rnd, True)
    if rnd.random() < 0.3:
        a["cols"] = ["n%d" % i for i in range(d)]
    if a["inc"] is False and a["steps"] == 0:
        a["steps"] = 1
    return a


def fix(a, fit):
    """Make the call one that is specified: date labels need a start and a frequency."""
    if a["steps"] > 60 and {a["lf"]["k"], fit["idx"]["freq"]["k"] if fit else "none"} & {"YE", "YS", "QE", "QS", "ME", "MS"}:
        a.update(lf={"k": "B", "a": 0}, ls=[17500])
    if fit and fit["idx"]["has"]:
        if fit["idx"]["freq"]["k"] == "none" and a["lf"]["k"] == "none":
            a["lf"] = {"k": "B", "a": 0}
        if a["x0k"] == "value" and not a["ls"]:
            a["ls"] = [18000]
    elif a["lf"]["k"] != "none" and not a["ls"]:
        a["ls"] = [17000]
    if not (fit and fit["idx"]["has"]) and a["ls"] and a["lf"]["k"] == "none":
        a["lf"] = {"k": "D", "a": 0}
    return a


def explicit(rnd, d, fit, pos):
    return dict(o="sample", m=1, a=fix(rargs(rnd, d, "explicit", pos), fit))


def session(rnd, prop):
    kind = rnd.choice(["BM", "GBM", "OU"])
    d = rnd.choice([1, 1, 2, 3, rnd.randint(1, 4)])
    ops = [dict(o="new", m=1, **rparams(rnd, kind, d))]
    pos = kind == "GBM"
    if rnd.random() < 0.04:
        d = rnd.randint(5, 12)
        ops = [dict(o="new", m=1, **rparams(rnd, kind, d))]
    if prop == "C05":
        ops += [explicit(rnd, d, None, pos) for _ in range(rnd.randint(1, 3))]
        if rnd.random() < 0.25:
            ds = rdata(rnd, kind, d)
            ops += [dict(o="fit", m=1, ds=ds, dt=[fl(rnd.uniform(0.01, 1))]), explicit(rnd, d, ds, pos)]
    elif prop == "C06":
        fit = None
        if rnd.random() < 0.55:
            fit = rdata(rnd, kind, d)
            ops.append(dict(o="fit", m=1, ds=fit, dt=[fl(rnd.uniform(0.01, 1))]))
        for _ in range(3):
            a = fix(rargs(rnd, d, "mixed" if fit else "explicit", pos), fit)
            ops.append(dict(o="sample", m=1, a=a))
            ops.append(dict(o="sample", m=1, a=dict(a, inc=not a["inc"], steps=max(1, a["steps"]))))
    elif prop == "C07":
        fit, nm = None, 1
        hist, fits, states = [], {}, {1: ("p", 0)}
        for _ in range(rnd.randint(5, 10)):
            p = rnd.random()
            if p < 0.15:
                ops.append(dict(ops[0], m=nm + 1))
                nm += 1
            elif p < 0.25:
                fit = rdata(rnd, kind, d, freq=None)
                m = rnd.randint(1, nm)
                fits[m] = fit
                ops.append(dict(o="fit", m=m, ds=fit, dt=[fl(rnd.uniform(0.01, 1))]))
            elif p < 0.32 and kind != "OU":
                ops.append(dict(o="score", m=rnd.randint(1, nm), what="nll", ds=rdata(rnd, kind, d, cont="ndarray"), dt=[]))
            elif p < 0.45:
                ops.append(dict(o="perturb", s=rnd.choice([1, 1, 2])))
            elif p < 0.7 and hist:
                a = dict(rnd.choice(hist))
                if rnd.random() < 0.4:
                    a["seed"] = rnd.choice(["none", "none", str(rnd.randint(0, 50))])
                ops.append(dict(o="sample", m=rnd.randint(1, nm), a=a))
            else:
                a = rargs(rnd, d, "explicit", pos)
                a["steps"] = max(2, a["steps"])
                a["ls"], a["lf"] = [18000], {"k": "D", "a": 0}
                if rnd.random() < 0.3:
                    a["seed"] = "none"
                hist.append(a)
                ops.append(dict(o="sample", m=rnd.randint(1, nm), a=dict(a)))
        ops.append(dict(o="sample", m=1, a=dict(hist[0])) if hist else dict(o="perturb", s=1))
        ops.append(dict(o="sample", m=nm, a=dict(hist[-1])) if hist else dict(o="perturb", s=1))
    elif prop == "C08":
        for _ in range(2):
            rows = rnd.choice([None, None, None, 2, 3]) if (kind != "OU" and d == 1) else None
            ds = rdata(rnd, kind, d, rows=rows)
            if rows and rows < 3:
                ds["idx"]["freq"] = NOF
            if rows == 3 and ds["idx"]["freq"]["k"] == "B":
                ds["idx"]["freq"] = {"k": "D", "a": 0}
            ops.append(dict(o="fit", m=1, ds=ds, dt=rnd.choice([[], [fl(rnd.choice([1 / 252, 1 / 12, 1.0, 0.37]))]])))
        if d > 1 and rnd.random() < 0.5:
            ds = dict(ops[-1]["ds"])
            pm = list(range(d))
            rnd.shuffle(pm)
            ds["x"] = [[r[i] for i in pm] for r in ds["x"]]
            ops.append(dict(o="fit", m=1, ds=ds, dt=ops[-1]["dt"]))
    elif prop == "C09":
        if any(v == 0 for v in ops[0]["vol"]):
            ops[0]["vol"] = [0.3]
        if rnd.random() < 0.3:
            ops.append(dict(o="fit", m=1, ds=rdata(rnd, kind, d), dt=[]))
        for _ in range(rnd.randint(2, 4)):
            ds = rdata(rnd, kind, d)
            dt = rnd.choice([[], [fl(rnd.choice([1 / 252, 1 / 12, 1.0, 0.3]))]])
            for w in rnd.sample(["nll", "aic", "bic"], 2):
                ops.append(dict(o="score", m=1, what=w, ds=ds, dt=dt))
            if rnd.random() < 0.4:
                c2 = dict(ds, cont="ndarray" if ds["cont"] != "ndarray" else "DataFrame", cols=["c%d" % i for i in range(d)])
                ops.append(dict(o="score", m=1, what="nll", ds=c2, dt=[fl(0.2)]))
                ops.append(dict(o="score", m=1, what="nll", ds=ds, dt=[fl(0.2)]))
    else:
        fits = {1: None}
        for _ in range(rnd.randint(2, 6)):
            p = rnd.random()
            m = rnd.choice(list(fits))
            if p < 0.1 and len(fits) < 3:
                nm = len(fits) + 1
                if rnd.random() < 0.5:
                    ops.append(dict(ops[0], m=nm))
                    fits[nm] = None
                else:
                    ops.append(dict(o="clone", m=nm, of=m, how=rnd.choice(["deepcopy", "copy", "pickle"])))
                    fits[nm] = fits[m]
            elif p < 0.4:
                fits[m] = rdata(rnd, kind, d)
                ops.append(dict(o="fit", m=m, ds=fits[m], dt=rnd.choice([[], [fl(rnd.uniform(0.01, 1))]])))
                ops.append(dict(explicit(rnd, d, fits[m], pos), m=m))
            elif p < 0.58 and all(v > 0 for v in ops[0]["vol"]):
                ops.append(dict(o="score", m=m, what=rnd.choice(["nll", "aic", "bic"]), ds=rdata(rnd, kind, d), dt=rnd.choice([[], [fl(0.5)]])))
            else:
                a = fix(rargs(rnd, d, "mixed", pos), fits[m])
                ops.append(dict(o="sample", m=m, a=a))
        for m in fits:
            ops.append(dict(o="sample", m=m, a=fix(rargs(rnd, d, "mixed", pos), fits[m])))
    return ops


def large(rnd, prop, i):
    """Long data, many steps, many paths or many variates."""
    kind = ["BM", "GBM", "OU"][i % 3]
    pos = kind == "GBM"
    d = [1, 2, 1, 3, 11][(i // 3) % 5]
    ops = [dict(o="new", m=1, **dict(rparams(rnd, kind, d), vol=[0.2]))]
    if kind == "OU":
        ops[0]["p2"] = [2.0] * d
    f = {"k": rnd.choice(["D", "B", "W"]), "a": 2}
    ds = rdata(rnd, kind, d, rows=rnd.choice([1100, 1500, 2600, 5000 if d < 3 else 1030]), dated=True, freq=dict(f, a=f["a"] if f["k"] == "W" else 0))
    steps, paths = rnd.choice([(5000, 1), (4100, 2), (2100, 3), (1030, 5), (300, 40), (3, 1500), (20, 260)])
    if d == 11:
        steps, paths = rnd.choice([(500, 1), (3, 101), (40, 11)])
    s = explicit(rnd, d, None, pos)
    s["a"].update(steps=steps, paths=paths, omit=False, ls=[], lf=NOF, dt=[fl(1 / 252)])
    if prop in ("C05", "C06", "C07"):
        ops.append(s)
        if prop == "C07":
            ops += [dict(o="perturb", s=1), dict(s, a=dict(s["a"])), dict(s, a=dict(s["a"], seed="none"))]
    elif prop == "C08":
        ops.append(dict(o="fit", m=1, ds=ds, dt=[]))
    elif prop == "C09":
        ops += [dict(o="score", m=1, what=w, ds=ds, dt=[]) for w in ("nll", "bic")]
    else:
        a = rargs(rnd, d, "mixed", pos)
        a.update(x0k="last", ls=[], lf=NOF, steps=7, paths=1, omit=False)
        ops += [dict(o="fit", m=1, ds=ds, dt=[]), dict(o="sample", m=1, a=a), dict(o="sample", m=1, a=dict(a, x0k="none"))]
    return ops


DATAS = {"A": ("DataFrame", True, {"k": "D", "a": 0}), "B": ("Series", True, {"k": "ME", "a": 0}), "C": ("Series", False, None), "D": ("ndarray", False, None)}


def from_model(hist, rnd):
    """A history of SimLifeMC with concrete data."""
    kind = rnd.choice(["BM", "GBM", "OU"])
    pos = kind == "GBM"
    p = rparams(rnd, kind, 1)
    p["vol"] = [max(0.05, p["vol"][0])]
    ops = [dict(o="new", m=1, **p), explicit(rnd, 1, None, pos)]
    data = {n: rdata(rnd, kind, 1, cont=c, dated=i, freq=f) for n, (c, i, f) in DATAS.items()}
    fit = None
    for h in hist:
        if h["o"] == "fit":
            fit = data[h["data"]]
            ops.append(dict(o="fit", m=1, ds=fit, dt=[fl(0.35)] if h["dt"] else []))
        elif h["o"] == "score":
            ops.append(dict(o="score", m=1, what=h["what"], ds=data[h["data"]], dt=[]))
        else:
            b = h["a"]
            a = rargs(rnd, 1, "explicit", pos)
            a.update(x0k=b["x0k"], paths=b["paths"], ls=b["ls"], lf={"k": b["lf"]["k"], "a": 2 if b["lf"]["k"] == "W" else 0},
                     dt=[fl(0.15)] if b["dt"] else [], steps=max(1, a["steps"] % 9), cols=[], omit=False)
            ops.append(dict(o="sample", m=1, a=a))
    return ops


def generate(a, behs, rnd):
    n = {"C05": 1600, "C06": 1300, "C07": 900, "C08": 1600, "C09": 1400, "C10": 900}[a.prop] * (8 if a.thorough else 1)
    if a.prop == "C10":
        take = behs if len(behs) <= 1500 * (8 if a.thorough else 1) else rnd.sample(behs, 1500 * (8 if a.thorough else 1))
        for h in take:
            yield dict(ops=from_model(h, rnd))
    if a.prop == "C05":
        for st, p, d in [(5000, 1, 1), (4, 1500, 1), (120, 25, 2), (1400, 1, 3), (70, 40, 2)] + ([] if not a.thorough else [(70000, 1, 1), (17000, 2, 2), (5, 9000, 2)]):
            yield dict(ops=[dict(o="noise", d=d, paths=p, steps=st, seed=rnd.randint(0, 10 ** 6))])
        for _ in range(6 if not a.thorough else 40):
            yield dict(ops=[dict(o="noise", d=rnd.choice([1, 2, 3]), paths=rnd.choice([1, 2, 3]), steps=rnd.choice([1500, 2500]), seed=rnd.randint(0, 10 ** 6))])
    for _ in range(n):
        yield dict(ops=session(rnd, a.prop))
    for i in range((9 if a.prop != "C07" else 3) * (4 if a.thorough else 1)):
        yield dict(ops=large(rnd, a.prop, i))


# ---- running them ---------------------------------------------------------------------------------------------
def model(p):
    from quantfinlib import sim
    v = lambda q: q[0] if len(q) == 1 else (list(q) if len(q) % 2 else np.array(q))
    cor = None if not p["cor"] else (p["cor"] if len(p["p1"]) % 2 else np.array(p["cor"]))
    if p["kind"] == "OU":
        return sim.OrnsteinUhlenbeck(mean=v(p["p1"]), mrr=v(p["p2"]), vol=v(p["vol"]), cor=cor)
    cls = sim.BrownianMotion if p["kind"] == "BM" else sim.GeometricBrownianMotion
    return cls(drift=v(p["p1"]), vol=v(p["vol"]), cor=cor)


def observed(m, kind):
    p1, p2 = (m.mean, m.mrr) if kind == "OU" else (m.drift, [])
    return dict(p1=fls(p1), p2=fls(p2), vol=fls(m.vol), cor=[] if m.cor is None else mat(m.cor))


def frame(ds):
    """The data set as the container asked for, and its index as logged."""
    X = np.array([[float(v) for v in r] for r in ds["x"]])
    if ds.get("ints"):
        X = X.astype(int)
    idx = dict(ds["idx"])
    T = len(X)
    index = None
    if idx["has"]:
        start = DAY0 + pd.Timedelta(days=idx["min"])
        if idx["freq"]["k"] == "none":
            rs = np.random.RandomState(ds["irr"])
            gaps = np.cumsum(rs.choice([1, 2, 4, 9, 31], size=T - 1)) if T > 1 else []
            if T >= 3:
                gaps = np.cumsum(([1, 5, 2] + list(rs.choice([1, 2, 4, 9, 31], size=T)))[:T - 1])
            days = [start] + [start + pd.Timedelta(days=int(g)) for g in gaps]
            index = pd.DatetimeIndex(days)
        else:
            index = pd.date_range(start, periods=T, freq=fstr(idx["freq"]))
        idx["min"], idx["max"] = (index[0] - DAY0).days, (index[-1] - DAY0).days
        index = index + pd.Timedelta(seconds=idx["tod"])
        if index.freq is None or ds["irr"] % 2:
            index = pd.DatetimeIndex(list(index))
        index = index.rename(None if idx["name"] == "none" else idx["name"])
    c = ds["cont"]
    if c == "ndarray1":
        return X[:, 0].copy(), idx, "ndarray"
    if c == "ndarray":
        return X, idx, "ndarray"
    if c == "Series":
        return pd.Series(X[:, 0], index=index, name=ds["cols"][0]), idx, c
    return pd.DataFrame(X, index=index, columns=ds["cols"]), idx, c


def call_sample(m, a):
    kw = {}
    x0 = a["x0"]
    if a["x0k"] in ("first", "last"):
        kw["x0"] = a["x0k"]
    elif a["x0k"] == "value":
        if len(x0) == 1 and a["x0c"] in ("plain", "df"):
            kw["x0"] = float(x0[0])
        elif a["x0c"] == "list":
            kw["x0"] = [float(v) for v in x0]
        elif a["x0c"] == "df":
            kw["x0"] = pd.DataFrame([x0])
        elif a["x0c"] == "series":
            kw["x0"] = pd.Series([float(v) for v in x0])
        else:
            kw["x0"] = np.array(x0, dtype=float)
        if isinstance(kw["x0"], float) and kw["x0"] == int(kw["x0"]) and a["steps"] % 2:
            kw["x0"] = int(kw["x0"])
    if a["dt"]:
        kw["dt"] = float(a["dt"][0])
    kw["num_steps"], kw["num_paths"] = a["steps"], a["paths"]
    if a["ls"]:
        ts = DAY0 + pd.Timedelta(days=a["ls"][0])
        kw["label_start"] = [ts, ts.strftime("%Y-%m-%d"), ts.to_pydatetime(), ts.strftime("%Y-%m-%d"), ts.date(), ts.to_datetime64()][a["ls"][0] % 6]
    if a["lf"]["k"] != "none":
        kw["label_freq"] = fstr(a["lf"])
    if a["cols"]:
        kw["columns"] = list(a["cols"])
    if a["seed"] != "none":
        kw["random_state"] = int(a["seed"]) if a["steps"] % 3 or int(a["seed"]) > 2 ** 62 else np.int64(a["seed"])
    kw["include_x0"] = a["inc"]
    if a.get("omit"):
        for n in ["num_steps"] + (["num_paths"] if a["paths"] == 1 else []) + (["include_x0"] if a["inc"] else []):
            del kw[n]
    elif a["call"] == "pos":
        order = ["x0", "dt", "num_steps", "num_paths", "label_start", "label_freq", "columns", "random_state", "include_x0"]
        return m.path_sample(*[kw.get(n) for n in order])
    return m.path_sample(**kw)


def describe(r):
    if isinstance(r, np.ndarray):
        v = np.atleast_2d(r) if r.ndim == 2 else r.reshape(len(r), -1)
        return dict(cont="ndarray", v=mat(v), cols=[], lab=[], tod=[], iname="none")
    d = isinstance(r.index, pd.DatetimeIndex)
    lab = [int((t - DAY0) // pd.Timedelta(days=1)) for t in r.index] if d else []
    tod = sorted(set(int((t - t.normalize()).total_seconds()) for t in r.index)) if d else []
    nm = "none" if r.index.name is None else str(r.index.name)
    if isinstance(r, pd.Series):
        return dict(cont="Series", v=mat(r.to_numpy().reshape(-1, 1)), cols=[str(r.name)], lab=lab, tod=tod, iname=nm)
    return dict(cont="DataFrame", v=mat(r.to_numpy()), cols=[str(c) for c in r.columns], lab=lab, tod=tod, iname=nm)


def shocks(steps, paths, d, seed):
    """The shocks of a seed and shape, as a driftless unit Brownian motion shows them."""
    from quantfinlib.sim import BrownianMotion
    b = BrownianMotion(drift=[0.0] * d, vol=[1.0] * d)
    x = b.path_sample(x0=[0.0] * d, dt=1.0, num_steps=steps, num_paths=paths, random_state=seed)
    return np.diff(np.asarray(x), axis=0)


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def alone(kind, ds, i, e, dt):
    """The parameters that column i gets when it is fitted by itself."""
    m = model(dict(kind=kind, p1=[0.0], p2=[1.0], vol=[0.1], cor=[]))
    x, _, _ = frame(dict(ds, x=[[r[i]] for r in ds["x"]], cols=ds["cols"][i:i + 1]))
    r = rec.outcome(lambda: m.fit(x, **({"dt": float(dt[0])} if dt else {})))
    return dict(r="ok" if r[0] == "ok" else r[1], **observed(m, kind))


def execute(case):
    log, mods, kinds = [], {}, {}
    for o in case["ops"]:
        if o["o"] == "perturb":
            np.random.seed(o["s"])
            random.seed(o["s"])
            continue
        g = state()
        if o["o"] == "new":
            mods[o["m"]] = model(o)
            kinds[o["m"]] = o["kind"]
            e = dict(o="new", m=o["m"], kind=o["kind"], of=0, p1=fls(o["p1"]), p2=fls(o["p2"]), vol=fls(o["vol"]), cor=mat(o["cor"]) if o["cor"] else [])
        elif o["o"] == "clone":
            src = mods[o["of"]]
            mods[o["m"]] = copy.copy(src) if o["how"] == "copy" else copy.deepcopy(src) if o["how"] == "deepcopy" else pickle.loads(pickle.dumps(src))
            kinds[o["m"]] = kinds[o["of"]]
            e = dict(o="clone", m=o["m"], of=o["of"], kind=kinds[o["m"]], **observed(mods[o["m"]], kinds[o["m"]]))
        elif o["o"] == "fit":
            x, idx, cont = frame(o["ds"])
            m, kind = mods[o["m"]], kinds[o["m"]]
            e = dict(o="fit", m=o["m"], kind=kind, x=o["ds"]["x"], cont=cont, cols=o["ds"]["cols"] if cont != "ndarray" else [], idx=idx, dt=o["dt"])
            r = rec.outcome(lambda: m.fit(x, **({"dt": float(o["dt"][0])} if o["dt"] else {})))
            e["r"] = "ok" if r[0] == "ok" else r[1]
            e.update(observed(m, kind))
            e["alone"] = []
            if e["r"] == "ok" and len(o["ds"]["x"][0]) > 1:
                e["alone"] = [alone(kind, o["ds"], i, e, o["dt"]) for i in range(len(o["ds"]["x"][0]))]
        elif o["o"] == "score":
            x, idx, cont = frame(o["ds"])
            m = mods[o["m"]]
            r = rec.outcome(lambda: getattr(m, o["what"])(x, **({"dt": float(o["dt"][0])} if o["dt"] else {})))
            e = dict(o="score", m=o["m"], what=o["what"], x=o["ds"]["x"], cont=cont, idx=idx, dt=o["dt"], r="ok" if r[0] == "ok" else r[1])
            e["v"] = fl(r[1]) if r[0] == "ok" else "nan"
        elif o["o"] == "sample":
            m = mods[o["m"]]
            r = rec.outcome(lambda: call_sample(m, o["a"]))
            a = dict(o["a"], x0=fls(o["a"]["x0"]))
            e = dict(o="sample", m=o["m"], a=a, r="ok" if r[0] == "ok" else r[1], z=[])
            e["out"] = describe(r[1]) if r[0] == "ok" else {}
            if r[0] != "ok":
                e["msg"] = r[2]
        else:
            e = dict(o="noise", z=mat(shocks(o["steps"], o["paths"], o["d"], o["seed"])))
        e["gs"] = state() == g
        if o["o"] == "sample" and e["r"] == "ok" and o["a"]["seed"] != "none":
            d = len(observed(m, kinds[o["m"]])["p1"])
            e["z"] = mat(shocks(o["a"]["steps"], o["a"]["paths"], d, int(o["a"]["seed"])))
        log.append(e)
    return {"ops": log}


if __name__ == "__main__":
    rec.main(generate, execute)
