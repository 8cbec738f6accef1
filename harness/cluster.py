"""Hierarchical clustering sessions and cluster metrics."""
import random

import numpy as np
import pandas as pd

import distance as ds
import rec
from rec import fl, fls, mat

METHODS = ["single", "complete", "average", "weighted", "centroid", "median", "ward"]


def dist_matrix(g, n):
    k = g.integers(0, 6)
    if k in (0, 4):
        p = g.normal(size=(n, 3))
        if k == 4:                                       # some items coincide
            p = p[g.integers(0, max(1, n - 1), size=n)]
        m = np.sqrt(((p[:, None] - p[None]) ** 2).sum(-1))
    elif k == 5:                                         # balanced: ties at every level
        n2 = np.arange(n)
        m = np.array([[(1, 2, 4, 8, 16, 32)[int(i ^ j).bit_length()] for j in n2] for i in n2], float)
    elif k == 1:
        m = g.uniform(0.05, 1, size=(n, n))
    elif k == 2:
        m = g.integers(1, 4, size=(n, n)).astype(float)
    else:
        c = g.integers(0, 3, size=n)
        m = np.where(c[:, None] == c[None], 0.1, 0.9) + g.uniform(0, 0.05, size=(n, n))
    m = np.triu(m, 1)
    m = m + m.T
    if k == 5:
        z = g.permutation(n)
        m = m[np.ix_(z, z)]
    return m


def gen24(a, behs, rnd):
    rnd.shuffle(behs)
    for b in behs[:1500 if not a.thorough else 20000]:
        yield dict(d=b["d"], m=b["m"], s=rnd.randrange(1 << 30))
    for i in range(900 if not a.thorough else 9000):
        yield dict(d=[], m=METHODS[i % 7], s=rnd.randrange(1 << 30), big=i % 45 < 7)


def ex24(case):
    from quantfinlib.clustering.hierarchical import HC
    g = np.random.default_rng(case["s"])
    m = case["m"]
    kind = str(g.choice(ds.KINDS))
    n = int(g.integers(2, 10))
    rows = 12
    if case.get("big"):
        n, rows = int(g.integers(12, 27)), 30
    out = dict(m=m, kind=kind, want="ok", cols=[], given=[], src="dist", dist=[], link=[], cuts=[], again=True)
    frame = bool(g.random() < 0.4)
    lab = [lambda i: "i%d" % i, lambda i: 100 - i, lambda i: (i, "x"), lambda i: pd.Timestamp("2020-01-01") + pd.Timedelta(i * 37 % 11, "D")][int(g.integers(0, 4))] if n < 10 else lambda i: n - i
    wrap = (lambda v: pd.DataFrame(v, index=[lab(i) for i in range(len(v))], columns=[lab(i) for i in range(len(v))])) if frame else (lambda v: v)
    kw = dict(linkage_method=m, corr_to_dist_method=kind)
    if m == "ward" and g.random() < 0.5:
        del kw["linkage_method"]
    if kind == "angular" and g.random() < 0.5:
        del kw["corr_to_dist_method"]
    if g.random() < 0.3:
        kw["optimal_ordering"] = bool(g.random() < 0.5)
    cols = [ds.spread(g, rows) for _ in range(n)]
    if n > 3 and rows == 12 and g.random() < 0.15:
        cols[2] = cols[0].copy()
    X = np.column_stack(cols)
    cor = np.corrcoef(X.T)
    cor = (cor + cor.T) / 2
    np.fill_diagonal(cor, 1.0)
    Xw = pd.DataFrame(X, columns=[lab(i) for i in range(n)], index=np.arange(rows)[::-1]) if frame else X
    src = "dist" if case["d"] else str(g.choice(["dist", "dist", "corr", "X", "X", "reject"]))
    if src == "dist":
        d = np.array(case["d"], float) if case["d"] else dist_matrix(g, n)
        if not case["d"] and g.random() < 0.2:            # far from one
            d = d * 10.0 ** g.integers(-6, 7)
        kw["dist"] = wrap(d.copy())
        out["given"] = mat(d)
        if len(d) == n and g.random() < 0.3:         # further matrices, which must not matter
            kw["corr"] = wrap(cor)
            kw["X"] = Xw
    elif src == "corr":
        kw["corr"] = wrap(cor.copy())
        out.update(src="corr", given=mat(cor))
        if g.random() < 0.5:
            kw["X"] = X[::-1] ** 2
    elif src == "X":
        cd = str(g.choice(["pearson-correlation", "spearman-correlation", "var_info"] if n < 12 else ["pearson-correlation", "spearman-correlation"]))
        kw.update(X=Xw, codependence_method=cd)
        if cd == "pearson-correlation" and g.random() < 0.5:
            del kw["codependence_method"]
        out.update(src=cd.split("-")[0], cols=[fls(c) for c in cols])
        if cd == "var_info" and g.random() < 0.5:
            kw["corr"] = wrap(cor)
    else:
        out["want"] = "reject"
        u = g.random()
        if u < 0.4:
            kw["codependence_method"] = str(g.choice(["pearson-correlation", "spearman-correlation"]))
        elif u < 0.7:
            kw.update(codependence_method="var_info", corr=wrap(cor))
        else:                                            # no such method
            kw.update(X=Xw, codependence_method=str(g.choice(["pearson", "kendall-correlation", "", "VAR_INFO", "mutual_info"])))
            if g.random() < 0.5:
                kw["corr"] = wrap(cor)
    z = rec.outcome(lambda: HC(**kw))
    if z[0] != "ok":
        return dict(out, r=z[1])
    h = z[1]
    if g.random() < 0.3 and len(h.dist) > 2:              # the object may have been asked for the best number first
        np.random.seed(1)
        rec.outcome(lambda: h.get_optimal_nclusters(max_clust=2, metric=str(g.choice(["gap", "silhouette"])), nb=1))
    L = rec.outcome(lambda: np.array(h.linkage))
    if out["want"] == "reject" or L[0] != "ok":
        return dict(out, r="ok" if L[0] == "ok" else L[1])
    L = L[1]
    n = len(h.dist)
    out.update(r="ok", dist=mat(np.asarray(h.dist)), link=[dict(a=int(r[0]) + 1, b=int(r[1]) + 1, h=fl(r[2]), n=int(r[3])) for r in L])
    h2 = HC(**kw)
    ks = list(range(1, n + 1)) + [int(v) for v in g.integers(1, n + 1, size=3)]
    g.shuffle(ks)
    ks = ks[:12] if n > 11 else ks
    for i, k in enumerate(ks):
        c = rec.outcome(lambda: (h if i % 3 else h2).get_clusters(**{"n_clusters": int(k)}) if i % 2 else (h if i % 3 else h2).get_clusters(np.int64(k) if i % 4 else int(k)))
        out["cuts"].append(dict(k=int(k), r="ok" if c[0] == "ok" else c[1], l=[int(v) for v in np.asarray(c[1]).ravel()] if c[0] == "ok" else []))
    out["again"] = bool(np.array_equal(np.asarray(h.linkage), L) and np.array_equal(np.asarray(h2.linkage), L))
    return out


def gen25(a, behs, rnd):
    for i in range(500 if not a.thorough else 4000):
        yield dict(s=rnd.randrange(1 << 30), scan=i % 3 == 0, big=i % 40 in (3, 5, 7, 8))


def refs(d, nb, seed):
    return [mat(np.random.RandomState((seed or 0) + b).uniform(0, np.max(d), size=d.shape)) for b in range(nb)]


def ex25(case):
    from quantfinlib.clustering.hierarchical import HC, optimize_n_clusters
    from quantfinlib.clustering.metrics import gap_statistic, silhouette_tstat
    g = np.random.default_rng(case["s"])
    n = int(g.integers(3, 9 if case["scan"] else 12))
    if case["scan"] and g.random() < 0.15:
        n = 8
    if case.get("big"):
        n = int(g.integers(21, 25)) if case["scan"] else int(g.integers(14, 26))
    d = dist_matrix(g, n)
    if g.random() < 0.2:
        d = d * 10.0 ** g.integers(-5, 6)
    nb = int(g.integers(1, 5)) if g.random() < 0.85 and not (case.get("big") and case["scan"]) else 10
    frame = g.random() < 0.4
    D = pd.DataFrame(d) if frame else d.copy()
    out = dict(d=mat(d), bad="ValueError", scan=case["scan"], parts=[], max=0, gaps=[], stds=[], tstats=[], best=dict(gap=0, silh=0), r="ok")
    seed = None if case["scan"] else [None, 0, 1, 7, 123456][g.integers(0, 5)]
    out["refs"] = refs(d, nb, seed)

    opt = dict(nb=nb, random_state=seed)
    if nb == 10 and g.random() < 0.5:
        del opt["nb"]
    if seed is None and g.random() < 0.5:
        del opt["random_state"]

    def gap(D, l):
        return rec.outcome(lambda: tuple(fl(v) for v in gap_statistic(D, l, **opt)))

    def part(l):
        l = np.asarray(l)
        z = gap(D, l)
        q = rec.outcome(lambda: fl(silhouette_tstat(D, l)))
        p = dict(l=[int(v) for v in l], gap=dict(r="ok" if z[0] == "ok" else z[1], o=z[1][0] if z[0] == "ok" else "nan", s=z[1][1] if z[0] == "ok" else "nan"),
                 silh=dict(r="ok" if q[0] == "ok" else q[1], o=q[1] if q[0] == "ok" else "nan"), alts=[])
        ren = g.permutation(n + 5)
        names = np.array(["c%d" % v for v in range(n)])
        for D2, l2 in ((D, ren[l]), (D.copy(), pd.Series(l, index=np.arange(n)[::-1])), (d if frame else pd.DataFrame(d, index=["i%d" % i for i in range(n)]), l * 3 - 7),
                       (np.asfortranarray(d), names[l]), (d, l * 0.5 - 1), (d, pd.Series(l % 2 == 0 if len(set(l)) == 2 else l))):
            np.random.seed(int(g.integers(0, 99)))
            w = gap(D2, l2)
            p["alts"].append(list(w[1]) if w[0] == "ok" else ["nan", "0.0"])
        if case["scan"]:
            p["alts"] = p["alts"][:1]
        return p

    if not case["scan"]:
        for _ in range(2):
            k = int(g.integers(1, n + 1))
            l = np.concatenate([np.arange(k), g.integers(0, k, size=n - k)])
            g.shuffle(l)
            out["parts"].append(part(l))
        return out
    h = HC(dist=D, linkage_method=str(g.choice(METHODS)))
    mx = int(g.integers(2, n))                              # fewer clusters than items
    default = bool(case.get("big") and g.random() < 0.6)
    if case.get("big"):
        mx = 20 if default else int(g.integers(2, 8))
    out["max"] = mx
    for k in range(2, mx + 1):
        p = part(h.get_clusters(k))
        out["parts"].append(p)
        out["gaps"].append(p["gap"]["o"]); out["stds"].append(p["gap"]["s"]); out["tstats"].append(p["silh"]["o"])
    if default and nb == 10:
        f = (lambda metric: h.get_optimal_nclusters(**({} if metric == "gap" else dict(metric=metric)))) if g.random() < 0.5 else \
            (lambda metric: optimize_n_clusters(h.linkage, D, **({} if metric == "gap" else dict(metric=metric))))
    else:
      f = (lambda metric: h.get_optimal_nclusters(max_clust=mx, metric=metric, nb=nb)) if g.random() < 0.5 else (lambda metric: optimize_n_clusters(h.linkage, D, mx, metric, nb))
    for key, metric in (("gap", "gap"), ("silh", "silhouette")):
        z = rec.outcome(lambda: int(f(metric)))
        if z[0] != "ok":
            out["r"] = z[1]
        else:
            out["best"][key] = z[1]
    z = rec.outcome(lambda: f(str(g.choice(["", "GAP", "silhouettes", "calinski", "none"]))) if not (default and nb == 10) else h.get_optimal_nclusters(metric="elbow"))
    out["bad"] = z[1] if z[0] != "ok" else "ok"
    return out


def generate(a, behs, rnd):
    for c in (gen24 if a.prop == "C24" else gen25)(a, behs, rnd):
        yield dict(c, prop=a.prop)


def execute(case):
    return (ex24 if case["prop"] == "C24" else ex25)(case)


if __name__ == "__main__":
    rec.main(generate, execute)
