"""Distances: correlations, information measures, divergences, distance matrices."""
import math, random

import numpy as np
import pandas as pd

import rec
from rec import fl, fls, mat

KINDS = ["angular", "abs_angular", "squared_angular"]


def vec(g, n):
    k = g.integers(0, 6)
    if k == 0:
        return g.normal(size=n)
    if k == 1:
        return np.exp(g.normal(size=n))
    if k == 2:
        return g.integers(0, 5, size=n).astype(float)
    if k == 3:
        return g.normal(size=n).cumsum() * 10.0 ** g.integers(-4, 5)
    if k == 4:
        return g.uniform(-1, 1, size=n) + float(g.choice([1000.0, -1000.0]))
    if g.random() < 0.2:
        return g.normal(size=n) * 10.0 ** float(g.uniform(-13, 13))
    return np.round(g.normal(size=n), 1)


def spread(g, n):
    while True:
        v = vec(g, n)
        if np.ptp(v) > 0:
            return v


def corr_matrix(g, n, fuzz=True):
    a = g.normal(size=(n, n + 3))
    if g.random() < 0.3:
        a[1:] += 3 * a[0]
    c = np.atleast_2d(np.corrcoef(a))
    if g.random() < 0.4 and n > 1:
        i, j = g.choice(n, 2, replace=False)
        c[i, :] = g.choice([-1, 1]) * c[j, :]
        c[:, i] = c[i, :]
        c[i, i] = c[j, j]
        c[i, j] = c[j, i] = g.choice([-1.0, 1.0]) * (1 + g.choice([0, 1, 2, 4]) * 2.0 ** -52)
    if fuzz and g.random() < 0.2:            # rounding of a longer computation
        c = c + g.uniform(-1, 1, size=c.shape) * 10.0 ** float(g.uniform(-15, -11))
    return c


def laid(g, m):
    """The same matrix in another memory layout."""
    k = g.integers(0, 6)
    if k == 0:
        return np.asfortranarray(m)
    if k == 1:
        return m[::-1, ::-1].copy()[::-1, ::-1]
    if k == 2:
        b = np.zeros((2 * m.shape[0], 2 * m.shape[1]))
        b[::2, ::2] = m
        return b[::2, ::2]
    if k == 3:
        v = m.copy()
        v.setflags(write=False)
        return v
    if k == 4 and np.array_equal(m, np.round(m)):
        return m.astype(np.int64)
    return m.copy()


# ---- C20 -------------------------------------------------------------------------------------------------------
def gen20(a, behs, rnd):
    rnd.shuffle(behs)
    for b in behs[:4000 if not a.thorough else 40000]:
        yield dict(shape="matrix", kind=b["kind"], m=[[x / 12 for x in r] for r in b["m"]])
    for i in range(1500 if not a.thorough else 15000):
        yield dict(shape=["number", "matrix", "matrix", "frame", "pair", "bad"][i % 6], kind=rnd.choice(KINDS), s=rnd.randrange(1 << 30), m=[])


def ex20(case):
    from quantfinlib.distance import correlation as co
    import quantfinlib.distance.distance_matrix as dmx
    g = np.random.default_rng(case.get("s", 0))
    shape, kind = case["shape"], case["kind"]
    conv = getattr(co, "corr_to_%s_dist" % kind)
    r = dict(shape=shape, kind=kind)
    if shape == "number":
        c = float(g.choice([1.0, -1.0, 0.0, 1 + 2e-16, -1 - 4e-16, 1 - 1e-16, 1e-12, g.uniform(-1, 1), g.uniform(-1, 1)]))
        if g.random() < 0.3:
            c = np.float64(c)
        elif c == round(c):
            c = int(c)
        z = rec.outcome(lambda: fl(conv(c)))
        return dict(r, c=fl(c), r=z[0] if z[0] == "ok" else z[1], o=z[1] if z[0] == "ok" else "nan")
    if shape == "pair":
        n = int(g.choice([2, 3, g.integers(2, 40), g.integers(2, 40), g.integers(40, 1500)]))
        x = spread(g, n) + (1e6 if g.random() < 0.05 else 0)
        q = g.random()
        y = spread(g, n) if q < 0.6 else x * float(g.choice([-3, 2, 0.1])) + 1 if q < 0.9 else x + 1e-3 * g.normal(size=n)
        f = getattr(co, "pair_%s_distance" % kind)
        if g.random() < 0.3:
            x2, y2 = pd.Series(x), pd.Series(y, index=np.arange(len(y))[::-1])
        elif g.random() < 0.2:
            x2, y2 = list(x), list(y)
        elif np.array_equal(x, np.round(x)) and g.random() < 0.5:
            x2, y2 = x.astype(np.int32), y
        else:
            x2, y2 = x, y
        z = rec.outcome(lambda: fl(f(x2, y2)))
        return dict(r, x=fls(x), y=fls(y), r=z[0] if z[0] == "ok" else z[1], o=z[1] if z[0] == "ok" else "nan")
    if case["m"]:
        m = np.array(case["m"], dtype=float)
    else:
        m = corr_matrix(g, (int(g.integers(1, 8)) if shape != "frame" else int(g.integers(2, 8))) if g.random() < 0.97 else int(g.integers(8, 30)), shape != "frame")
        if shape == "matrix" and g.random() < 0.03:
            m = np.eye(len(m))
    if shape == "bad":
        r["shape"] = "matrix"
        n = len(m)
        b = g.integers(0, 7)
        m = np.array(m)
        if b == 0:
            m = m[:, :-1] if n > 1 else np.array([[1.0, 0.2]])
        elif b == 1 and n > 1:
            i, j = g.choice(n, 2, replace=False)
            m[i, j] += float(g.choice([0.3, -0.2, 1e-3]))
        elif b == 4 and n > 2:                    # asymmetric with equal row and column sums
            i, j, l = g.choice(n, 3, replace=False)
            e = float(g.choice([0.2, -0.1, 2e-3]))
            for q, w in ((i, j), (j, l), (l, i)):
                m[q, w] += e
                m[w, q] -= e
        elif b == 5 and n > 1:                    # asymmetric in sign only
            i, j = g.choice(n, 2, replace=False)
            m[i, j], m[j, i] = 0.4, -0.4
        elif b == 6 and n > 1:                    # a diagonal that is one on average
            i, j = g.choice(n, 2, replace=False)
            e = float(g.choice([0.5, 0.1, 2e-3]))
            m[i, i] += e
            m[j, j] -= e
        else:
            i = g.integers(n)
            m[i, i] = float(g.choice([0.0, 0.9, 1.1, -1.0, 1 + 1e-3]))
    arg = laid(g, m)
    if shape == "frame":
        lab = [["c%d" % i for i in range(len(m))], list(range(len(m)))[::-1], list(pd.date_range("2020", periods=len(m)))][g.integers(0, 3)]
        arg = pd.DataFrame(arg, index=lab, columns=lab)
        call = lambda: dmx.corr_to_dist(arg, corr_to_dist_method=kind)
    elif len(m) > 1 and m.shape[1] > 1 and g.random() < 0.3:
        call = lambda: dmx.corr_to_dist(arg, corr_to_dist_method=kind) if kind != "angular" or g.random() < 0.5 else dmx.corr_to_dist(arg)
    else:
        call = lambda: conv(arg)
    z = rec.outcome(call)
    ok = z[0] == "ok" and np.ndim(z[1]) == 2
    return dict(r, m=mat(m), d=mat(z[1]) if ok else [], r="ok" if z[0] == "ok" else z[1], same=bool(np.array_equal(np.asarray(arg), m)))


# ---- C21 -------------------------------------------------------------------------------------------------------
def gen21(a, behs, rnd):
    rnd.shuffle(behs)
    for b in behs[:2500 if not a.thorough else 20000]:
        yield dict(x=b["x"], y=b["y"], bins=[b["bins"]], exact=b["bins"] in (1, 2, 4) and all(max(v) - min(v) in (0, 1, 2, 4) for v in (b["x"], b["y"])), s=0)
    for _ in range(900 if not a.thorough else 8000):
        yield dict(x=[], s=rnd.randrange(1 << 30))


def ex21(case):
    from quantfinlib.distance import information as inf
    g = np.random.default_rng(case["s"])
    if case["x"]:
        x, y, bins, exact = np.array(case["x"], float), np.array(case["y"], float), case["bins"], case["exact"]
    else:
        n = int(g.choice([2, 3, 5, 10, 20, 40, 60, g.integers(2, 90)])) if g.random() < 0.97 else int(g.integers(90, 700))
        x = spread(g, n)
        q = g.random()
        y = spread(g, n) if q < 0.45 else x * float(g.choice([2.0, -1.0, -0.5])) + float(g.choice([0, 1.0])) if q < 0.6 else x + float(g.choice([0.3, 10.0 ** g.uniform(-4, 0), 10.0 ** g.uniform(-2.5, -1)])) * np.std(x) * g.normal(size=n) if q < 0.9 else x ** 2 + 0.1 * g.normal(size=n)
        bins = [] if g.random() < 0.5 else [int(g.integers(1, 13)) if g.random() < 0.95 else int(g.integers(13, 60))]
        if bins and g.random() < 0.06:
            y = np.full(n, y[0])                  # a constant: one bin holds everything
        exact = False
    form = g.integers(0, 4)
    if form == 3 and np.array_equal(x, np.round(x)) and np.ptp(x) < 1e9:
        x2 = x.astype(np.int64)
    else:
        x2 = x
    X, Y = (x2, y) if form != 2 else (pd.Series(x, index=np.arange(len(x))[::-1]), pd.Series(y))
    b = (bins[0] if g.random() < 0.7 else np.int64(bins[0])) if bins else None
    call = {"mi": lambda: inf.mutual_info(X, Y, b, False), "nmi": lambda: inf.mutual_info(X, Y, b), "vi": lambda: inf.var_info(X, Y, bins=b, norm=False),
            "nvi": lambda: inf.var_info(X, Y, bins=b), "kl": lambda: inf.kl_divergence_xy(X, Y, b), "mi2": lambda: inf.mutual_info(Y, X, b, norm=False),
            "nmi2": lambda: inf.mutual_info(Y, X, b, norm=True), "vi2": lambda: inf.var_info(Y, X, b, False), "nvi2": lambda: inf.var_info(Y, X, b, True),
            "vxx": lambda: inf.var_info(X, X, b, False)}
    out = dict(x=fls(x), y=fls(y), bins=bins, exact=exact, r="ok", h=[])
    if bins:
        z = rec.outcome(lambda: inf.compute_entropies(X, Y, b))
        if z[0] != "ok":
            out["r"] = z[1]
        else:
            out["h"] = fls(z[1])
    for k, f in call.items():
        z = rec.outcome(lambda: fl(f()))
        out[k] = z[1] if z[0] == "ok" else "nan"
        if z[0] != "ok":
            out["r"] = z[1]
    return out


# ---- C22 -------------------------------------------------------------------------------------------------------
def gen22(a, behs, rnd):
    rnd.shuffle(behs)
    for b in behs[:1500 if not a.thorough else 10000]:
        yield dict(p=b["p"], q=b["q"], s=rnd.randrange(1 << 30))
    for _ in range(900 if not a.thorough else 9000):
        yield dict(p=[], s=rnd.randrange(1 << 30))


def pd_matrix(g, n):
    o = np.linalg.qr(g.normal(size=(n, n)))[0]
    k = g.integers(0, 4)
    e = np.exp(g.normal(size=n) * (0.5 if k < 2 else 2)) * 10.0 ** g.integers(-3, 4)
    if k == 1:
        e[:] = e[0]
    m = (o * e) @ o.T
    return (m + m.T) / 2


def ex22(case):
    from quantfinlib.distance import matrix_divergence as dv
    g = np.random.default_rng(case["s"])
    eq = axes = False
    if case["p"]:
        p, q = np.array(case["p"], float), np.array(case["q"], float)
        pdp = all(m[0, 0] > 0 and np.linalg.det(m) > 0.5 for m in (p, q))
        neg = any(m[0, 0] < 0 or np.linalg.det(m) < -0.5 for m in (p, q))
        state = "yes" if pdp else "no" if neg else "unclear"
        eq = bool((p == q).all())
    else:
        n = int(g.integers(1, 6)) if g.random() < 0.95 else int(g.integers(6, 16))
        p = pd_matrix(g, n)
        eq = bool(g.random() < 0.25)
        q = p.copy() if eq else pd_matrix(g, n)
        state = "yes"
        if g.random() < 0.1:                      # along the axes, however badly scaled
            p = np.diag(10.0 ** g.uniform(-20, 3, size=n))
            q = p.copy() if eq else np.diag(10.0 ** g.uniform(-3, 3, size=n))
            axes = True
        elif g.random() < 0.2:
            state = "no"
            bad = g.normal(size=n)
            if n == 1 or g.random() < 0.5:
                e = np.abs(bad) + 0.1
                e[g.integers(n)] = 0.0 if g.random() < 0.5 else -0.2
                b = np.diag(e)
            else:
                b = pd_matrix(g, n)
                b = b - np.eye(n) * (np.linalg.eigvalsh(b)[0] + 0.1 * abs(np.linalg.eigvalsh(b)[-1]))
            if g.random() < 0.5:
                p = b
            else:
                q = b
    if state == "unclear":
        state, p = "yes", np.eye(2)
        q, eq = np.eye(2) * 2, False
    p, q = laid(g, p), laid(g, q)
    z, w = rec.outcome(lambda: fl(dv.log_det_divergence(p, q))), rec.outcome(lambda: fl(np.real_if_close(dv.von_neuman_divergence(p, q))))
    out = dict(pd=state, p=mat(p), q=mat(q), eq=eq, ld=dict(r="ok" if z[0] == "ok" else z[1], o=z[1] if z[0] == "ok" else "nan"),
               vn=dict(r="ok" if w[0] == "ok" else w[1], o=w[1] if w[0] == "ok" else "nan"), ldinv=[], vninv=[])
    if state == "yes":
        for m, (a, b) in ((p, ("s", "v")), (q, ("t", "w"))):
            e, u = np.linalg.eigh(m)
            out[a], out[b] = fls(e), mat(u.T)
        n = len(p)
        o = np.linalg.qr(g.normal(size=(n, n)))[0]
        c = np.eye(n) + 0.3 * np.triu(g.normal(size=(n, n)), 1)
        sym = lambda m: (m + m.T) / 2
        for a, b in ((3.0 * p, 3.0 * q), (sym(c @ p @ c.T), sym(c @ q @ c.T)))[:1 if axes else 2]:
            zz = rec.outcome(lambda: fl(dv.log_det_divergence(a, b)))
            out["ldinv"].append(zz[1] if zz[0] == "ok" else "nan")
        zz = w if axes else rec.outcome(lambda: fl(np.real_if_close(dv.von_neuman_divergence(sym(o @ p @ o.T), sym(o @ q @ o.T)))))
        out["vninv"].append(zz[1] if zz[0] == "ok" else "nan")
    return out


# ---- C23 -------------------------------------------------------------------------------------------------------
def gen23(a, behs, rnd):
    for i in range(900 if not a.thorough else 8000):
        yield dict(s=rnd.randrange(1 << 30), what="corr" if i % 2 else "info")


def shrink(c):
    return 0.5 * c + 0.5 * np.eye(len(c))


def square(c):
    return c ** 2


TR = {"none": None, "shrink": shrink, "abs": np.abs, "square": square}


def ex23(case):
    import quantfinlib.distance as qd
    g = np.random.default_rng(case["s"])
    n, m = int(g.integers(3, 40)), int(g.integers(2, 6))
    if g.random() < 0.03:
        n, m = int(g.integers(40, 160)), int(g.integers(2, 11))
    while True:
        cols = [spread(g, n) for _ in range(m)]
        if g.random() < 0.3 and m > 2:
            cols[1] = cols[0] * -2.0 + 1
        if g.random() < 0.3:
            cols[-1] = cols[0] + np.std(cols[0]) * 0.3 * g.normal(size=n)
        if all(np.ptp(c) > 0 for c in cols):
            break
    X = np.column_stack(cols)
    labels = [list("abcdefghijkl")[:m], [5, 3, 1, 0, 2, 4, 9, 7, 8, 6, 11, 10][:m], [("x", i) for i in range(m)], list(pd.date_range("2020", periods=m))][g.integers(0, 4)]
    ix = [None, pd.date_range("2021", periods=n), list("ab" * n)[:n]][g.integers(0, 3)]
    frame = g.random() < 0.5
    want = "ok"
    if case["what"] == "corr":
        opt = dict(corr=str(g.choice(["pearson", "spearman"])), kind=str(g.choice(KINDS)), tr=str(g.choice(["none", "none", "shrink", "abs", "square"])))
        kw = dict(corr_method=opt["corr"], corr_to_dist_method=opt["kind"])
        if opt["corr"] == "pearson" and g.random() < 0.5:
            del kw["corr_method"]
        if opt["kind"] == "angular" and g.random() < 0.5:
            del kw["corr_to_dist_method"]
        if opt["tr"] != "none" or g.random() < 0.5:
            kw["corr_transformer"] = TR[opt["tr"]]
        if g.random() < 0.08:
            kw[str(g.choice(["corr_method", "corr_to_dist_method"]))] = str(g.choice(["kendal", "euclid", "", "Angular"]))
            want = "reject"
        f = qd.get_corr_distance_matrix
    else:
        opt = dict(method=str(g.choice(["mutual_info", "var_info"])), bins=[] if g.random() < 0.4 else [int(g.integers(2, 9))], norm=bool(g.random() < 0.5))
        kw = dict(method=opt["method"])
        if opt["method"] == "var_info" and g.random() < 0.5:
            del kw["method"]
        if opt["bins"] or g.random() < 0.5:
            kw["bins"] = opt["bins"][0] if opt["bins"] else None
        if not opt["norm"] or g.random() < 0.5:
            kw["norm"] = opt["norm"]
        if g.random() < 0.08:
            kw["method"], want = str(g.choice(["mi", "", "variation", "Var_Info"])), "reject"
        f = qd.get_info_distance_matrix
    fr = lambda sel: pd.DataFrame(X[:, sel], columns=pd.Index([labels[i] for i in sel]), index=ix)
    al = list(range(m))
    z = rec.outcome(lambda: f(fr(al) if frame else X.copy(), **kw))
    ok = z[0] == "ok" and np.ndim(z[1]) == 2
    cont = True
    if z[0] == "ok":
        cont = (type(z[1]) is pd.DataFrame and z[1].index.equals(fr(al).columns) and z[1].columns.equals(fr(al).columns)) if frame else type(z[1]) is np.ndarray
    out = dict(what=case["what"], opt=opt, want=want, cols=[fls(c) for c in cols], r="ok" if z[0] == "ok" else z[1], d=mat(z[1]) if ok else [], cont=bool(cont), alts=[], frame=bool(frame))
    if want == "ok":
        p = [int(v) for v in g.permutation(m)]
        for sel, fm in ((p, frame), (sorted(p[:max(2, m - 1)]), frame), (al, not frame), (p[:2], not frame)):
            q = rec.outcome(lambda: f(fr(sel) if fm else X[:, sel].copy(), **kw))
            out["alts"].append(dict(sel=[i + 1 for i in sel], r="ok" if q[0] == "ok" else q[1], d=mat(q[1]) if q[0] == "ok" else []))
    return out


def generate(a, behs, rnd):
    for c in {"C20": gen20, "C21": gen21, "C22": gen22, "C23": gen23}[a.prop](a, behs, rnd):
        yield dict(c, prop=a.prop)


def execute(case):
    return {"C20": ex20, "C21": ex21, "C22": ex22, "C23": ex23}[case["prop"]](case)


if __name__ == "__main__":
    rec.main(generate, execute)
