"""Sessions of public calls on shared objects, compared with fresh processes."""
import hashlib, io, json, os, pickle, random, struct, subprocess, sys, warnings

import numpy as np
import pandas as pd

import rec

# ---- objects of the user -----------------------------------------------------------------------------------------
N = 40


def build(o, v):
    """Object o with content version v."""
    g = np.random.default_rng(1000 * v + sum(map(ord, o)))
    idx = pd.date_range("2021-01-04", periods=N, freq="B", name="day")
    walk = lambda vol=0.02, n=N: 100 * np.exp(np.cumsum(g.normal(0, vol, n)))
    if o in ("close", "high", "low", "open", "volume", "buy", "sigma"):
        h = np.random.default_rng(77 + v)
        c = 100 * np.exp(np.cumsum(h.normal(0, 0.02, N)))
        op = c * np.exp(h.normal(0, 0.01, N))
        vol = np.round(h.uniform(100, 1000, N))
        d = dict(close=c, open=op, high=np.maximum(c, op) * 1.01, low=np.minimum(c, op) * 0.99, volume=vol, buy=vol * h.uniform(0, 1, N), sigma=np.full(N, 1.5) + h.uniform(0, 1, N))
        return pd.Series(d[o], index=idx, name=o)
    if o == "aclose":
        return walk()
    if o == "iclose":                                        # whole numbers
        return pd.Series(np.round(walk()).astype(int), index=idx, name="whole")
    if o == "hclose":                                        # half the precision
        return pd.Series(walk().astype(np.float32), index=idx)
    if o == "sclose":                                        # a view into a table
        return np.column_stack([walk(), walk()])[:, v % 2]
    if o in ("ghigh", "glow"):
        s = build(o[1:], v)
        s[np.random.default_rng(v).random(N) < 0.2] = np.nan
        return s
    if o == "zvolume":
        s = build("volume", v)
        s.iloc[[3, 4, 11 + v]] = 0.0
        return s
    if o == "Fcov":
        return np.asfortranarray(build("cov", v))
    if o == "Fcor":
        return np.asfortranarray(build("cor", v))
    if o == "ocov":                                          # implied correlations beyond one
        c = build("cov", v).copy()
        c[0, 1] = c[1, 0] = 1.4 * np.sqrt(c[0, 0] * c[1, 1])
        c[2, 3] = c[3, 2] = -1.4 * np.sqrt(c[2, 2] * c[3, 3])
        return c
    if o in ("ocor", "wcor"):                                # beyond one by rounding
        c = build("cor", v).copy()
        c[0, 0], c[1, 1] = 1 + 1e-10, 1 - 1e-10
        c[0, 1] = c[1, 0] = 1 + 1e-10
        return c if o == "ocor" else pd.DataFrame(c, index=list("fedcba"), columns=list("fedcba"))
    if o == "ueig":                                          # not sorted
        return np.array([0.3, 5.0, 0.9, 3.0, 1.2, 0.6]) + 0.01 * v
    if o == "tx":                                            # with ties and far outliers
        return np.r_[g.integers(0, 4, N - 1), 50.0 + v]
    if o == "slabels2":
        return pd.Series(["u", "v", "u", "w", "w", "v"] if v % 2 == 0 else ["u", "u", "v", "v", "w", "w"], index=list("fbdace"))
    if o == "lgroups":
        return pd.Series(np.sort(g.integers(0, 9, N)).astype(float))
    if o == "igroups":
        return np.sort(g.integers(0, 12, N)).astype(np.int16)
    if o == "nprices":
        return pd.DataFrame(100 * np.exp(np.cumsum(g.normal(0, 0.02, (N, 3)), axis=0)), columns=["u", "v", "w"], index=pd.date_range("2020-01-31", periods=N, freq="ME"))
    if o == "Fprices":
        return np.asfortranarray(100 * np.exp(np.cumsum(g.normal(0, 0.02, (N, 2)), axis=0)))
    if o == "oneprice":
        return 50 * np.exp(np.cumsum(g.normal(0, 0.02, N)))
    if o == "gaps":
        s = pd.Series(walk(), index=idx)
        s[g.random(N) < 0.2] = np.nan
        return s
    if o in ("ret", "aret", "npret"):
        c = g.normal(0, 0.01, (N, 4)) @ np.array([[1, .5, .2, 0], [0, 1, .5, .1], [0, 0, 1, .4], [0, 0, 0, 1]])
        return pd.DataFrame(c, columns=list("wxyz"), index=idx) if o == "ret" else c
    if o == "prices":
        return pd.DataFrame(100 * np.exp(np.cumsum(g.normal(0, 0.02, (N, 2)), axis=0)), columns=["u", "v"], index=idx)
    if o in ("x", "y"):
        return g.normal(size=N).round(2)
    if o in ("sx", "sy"):
        return pd.Series(g.normal(size=N).round(2))
    if o in ("cov", "cor", "cov2", "fcor", "dist", "fdist"):
        b = g.normal(size=(60, 6)) * np.array([1, 2, 1, .5, 1, 1]) + g.normal(size=(60, 1))
        c = np.cov(b.T)
        c = (c + c.T) / 2
        if o in ("cor", "fcor", "dist", "fdist"):
            s = np.sqrt(np.diag(c))
            c = c / np.outer(s, s)
            c = np.clip((c + c.T) / 2, -1, 1)
            np.fill_diagonal(c, 1)
        if o in ("dist", "fdist"):
            c = np.sqrt((1 - c) / 2)
        return pd.DataFrame(c, index=list("abcdef"), columns=list("abcdef")) if o[0] == "f" else c
    if o in ("labels", "slabels"):
        a = np.array([0, 0, 1, 1, 2, 2]) if v % 2 == 0 else np.array([0, 1, 0, 1, 1, 0])
        return a if o == "labels" else pd.Series(a)
    if o == "std":
        return np.abs(g.normal(size=6)) + 0.5
    if o == "eig":
        return np.array([5.0, 3.0, 1.2, 0.9, 0.6, 0.3]) + v * np.array([1, .5, .1, .1, .05, .01])
    if o == "vec":
        return np.linalg.qr(g.normal(size=(6, 6)))[0]
    if o == "vec2":
        return np.linalg.qr(g.normal(size=(6, 6)))[0][:, :2]
    if o == "eig2":
        return np.array([4.0, 1.5]) + 0.1 * v
    if o == "sizes":
        return [2, 3, 2] if v % 2 == 0 else [1, 2, 4]
    if o == "cors":
        return [0.5, 0.2, 0.4] if v % 2 == 0 else [0.1, 0.3, 0.2]
    if o == "X":
        return g.normal(size=(N, 2))
    if o == "FX":
        return pd.DataFrame(g.normal(size=(N, 2)), index=idx)
    if o == "groups":
        return np.sort(g.integers(0, 12, N)) * 2
    if o == "sgroups":
        return pd.Series(np.sort(g.integers(0, 12, N)), index=np.arange(N)[::-1])
    if o == "dates":
        return pd.date_range("2021-01-0%d" % (4 + v % 3), periods=N, freq="D")
    if o == "sdates":
        return pd.Series(pd.date_range("2021-01-0%d" % (4 + v % 3), periods=N, freq="D"))
    if o == "drift":
        return [0.1, 0.2 + 0.1 * v]
    if o == "adrift":
        return np.array([0.1, 0.2 + 0.1 * v])
    if o == "avol":
        return np.array([0.1, 0.2 + 0.1 * v])
    if o == "acor":
        return np.array([[1.0, 0.3 + 0.1 * v], [0.3 + 0.1 * v, 1.0]])
    if o == "lcor":
        return [[1.0, 0.2 + 0.1 * v], [0.2 + 0.1 * v, 1.0]]
    if o == "x0":
        return np.array([1.0, 2.0 + v])
    if o == "cols":
        return ["p", "q%d" % v]
    if o == "lx":
        return [1.0, 1.5, 1.2 + v, 1.4, 1.1, 1.9]
    raise KeyError(o)


OBJS = ("iclose hclose sclose ghigh glow zvolume Fcov Fcor ocov ocor wcor ueig tx slabels2 lgroups igroups nprices Fprices oneprice close high low open volume buy sigma aclose gaps ret aret prices x y sx sy cov cor cov2 fcor dist fdist labels slabels std eig vec vec2 eig2 "
        "sizes cors X FX groups sgroups dates sdates drift adrift avol acor lcor x0 cols lx").split()
FIXED = {"dates"}                                            # immutable


def edit(obj, new):
    """Give obj, in place, the content of new."""
    if isinstance(obj, list):
        obj[:] = new
    elif isinstance(obj, np.ndarray):
        obj[...] = new
    elif isinstance(obj, pd.Series):
        obj.iloc[:] = new.to_numpy()
    else:
        obj.iloc[:, :] = new.to_numpy()


# ---- digests -----------------------------------------------------------------------------------------------------
def feed(h, x, depth=0):
    if x is None or isinstance(x, (bool, str, bytes, int)):
        h.update(repr((type(x).__name__, x)).encode())
    elif isinstance(x, (float, complex, np.generic)):
        h.update(("f" + repr(np.asarray(x).tolist())).encode())
    elif isinstance(x, np.ndarray):
        h.update(repr((x.shape, x.dtype.str)).encode())
        h.update(repr(x.tolist()).encode() if x.dtype == object else np.ascontiguousarray(x).tobytes())
    elif isinstance(x, pd.Index):
        h.update(repr((type(x).__name__, x.name, str(x.dtype), getattr(x, "freqstr", None), x.tolist())).encode())
    elif isinstance(x, pd.Series):
        h.update(repr(("S", x.name, list(x.attrs.items()))).encode())
        feed(h, x.index), feed(h, x.to_numpy())
    elif isinstance(x, pd.DataFrame):
        h.update(repr(("D", list(x.attrs.items()))).encode())
        feed(h, x.index), feed(h, x.columns)
        for j in range(x.shape[1]):
            feed(h, x.iloc[:, j].to_numpy())
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode())
        for y in x:
            feed(h, y, depth + 1)
    elif isinstance(x, dict):
        h.update(b"dict")
        for q in x:
            feed(h, q), feed(h, x[q], depth + 1)
    elif hasattr(x, "__dict__") and depth < 5:
        h.update(type(x).__name__.encode())
        for q in sorted(vars(x)):
            h.update(q.encode())
            feed(h, vars(x)[q], depth + 1)
    else:
        h.update(type(x).__name__.encode())


def dig(x):
    h = hashlib.sha256()
    feed(h, x)
    return h.hexdigest()[:16]


def arrays(x, out, depth=0):
    """The arrays through which a returned object can be changed."""
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (pd.Series, pd.DataFrame)):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            arrays(y, out, depth + 1)
    elif isinstance(x, dict):
        for y in x.values():
            arrays(y, out, depth + 1)
    elif hasattr(x, "__dict__") and depth < 4 and type(x).__module__.startswith("quantfinlib"):
        arrays(vars(x), out, depth + 1)
    return out


def scribble(x):
    for a in arrays(x, []):
        try:
            if isinstance(a, np.ndarray):
                if a.flags.writeable:
                    a[...] = 1 if a.dtype.kind in "biu" else (-7.5 if a.dtype.kind in "fc" else a)
            elif isinstance(a, pd.Series):
                a.iloc[:] = -7.5
            else:
                a.iloc[:, :] = -7.5
        except Exception:
            pass
    if isinstance(x, list):
        x[:] = []


# ---- the catalogue ------------------------------------------------------------------------------------------------
def catalogue():
    import quantfinlib.clustering as cl
    import quantfinlib.datasets as ds
    import quantfinlib.distance as di
    import quantfinlib.feature.indicators as ind
    import quantfinlib.feature.micro_structure as ms
    import quantfinlib.math.cov as cv
    import quantfinlib.sim as sim
    import quantfinlib.util as ut
    from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
    from quantfinlib.feature.structural_breaks.cusumtest import chu_stinchcombe_white_cusum_test as cusum
    from quantfinlib.train_test_split import TimeAwareKFold, WalkForward
    C, D = {}, set()

    def add(name, objs, f, draws=False):
        C[name] = (objs.split(), f)
        if draws:
            D.add(name)
    # indicators
    for n in "rolling_mean rolling_std rolling_max rolling_min rolling_mom".split():
        add(n, "close", lambda s, f=getattr(ind, n): f(s, window=5))
        add(n + ":gaps", "gaps", lambda s, f=getattr(ind, n): f(s, window=3))
    for n in "ewm_mean ewm_std ewm_mom".split():
        add(n, "close", lambda s, f=getattr(ind, n): f(s, span=5))
    for n in "rsi ewm_rsi".split():
        add(n, "close", lambda s, f=getattr(ind, n): f(s, period=5))
        add(n + ":gaps", "gaps", lambda s, f=getattr(ind, n): f(s, period=4))
    add("macd", "close", lambda s: ind.macd(s, 3, 8))
    add("macd_signal", "close", lambda s: ind.macd_signal(s, 3, 8, 4))
    add("average_true_range", "high low close", lambda h, l, c: ind.average_true_range(h, l, c, 5))
    bands = ["lower", "middle", "upper", "bandwidth", "percent_b"]
    use = lambda b: [getattr(b, q)() for q in bands]
    for o in ("close", "aclose", "gaps"):
        add("BollingerBands:" + o, o, lambda s: use(ind.BollingerBands(s, 5)))
        add("EwmBollingerBands:" + o, o, lambda s: use(ind.EwmBollingerBands(s, 5)))
        add("DonchianBands:" + o, o, lambda s: use(ind.DonchianBands(s, 5)))
    add("KeltnerBands", "high low close", lambda h, l, c: use(ind.KeltnerBands(h, l, c, 4, 5)))
    add("GenericBands", "close open volume", lambda t, m, s: use(ind.GenericBands(t, m, s, 2, "g")))
    add("GenericBands:arrays", "aclose x y", lambda t, m, s: use(ind.GenericBands(t, m, s, 2, "g")))
    # micro structure
    hl, hloc = "high low", "high low open close"
    for n in "get_becker_parkinson_volatility get_high_low_volatility get_cowrin_schultz_spread".split():
        add(n, hl, lambda h, l, f=getattr(ms, n): f(h, l, 5))
    for n in "get_garman_klass_volatility get_rogers_satchell_volatility get_yang_zhang_volatility get_edge_spread".split():
        add(n, hloc, lambda h, l, o, c, f=getattr(ms, n): f(h, l, o, c, 6))
    add("get_edge_spread:sign", hloc, lambda h, l, o, c: ms.get_edge_spread(h, l, o, c, 8, sign=True))
    for n in "get_close_close_volatility get_roll_measure".split():
        add(n, "close", lambda c, f=getattr(ms, n): f(c, 5))
    for n in "get_roll_impact get_amihud_lambda get_kyle_lambda get_hasbrouck_lambda".split():
        add(n, "close volume", lambda c, v, f=getattr(ms, n): f(c, v, 5))
    add("estimate_buy_volume", "close volume sigma", ms.estimate_buy_volume)
    add("get_vpin", "volume buy", lambda v, b: ms.get_vpin(v, b, 5))
    add("cusum", "aclose", cusum)
    # distances
    for a, b, t in (("x", "y", ""), ("sx", "sy", ":series")):
        add("compute_entropies" + t, a + " " + b, lambda p, q: di.compute_entropies(p, q, 5))
        for n in "mutual_info var_info kl_divergence_xy".split():
            add(n + t, a + " " + b, lambda p, q, f=getattr(di, n): f(p, q))
            add(n + t + ":bins", a + " " + b, lambda p, q, f=getattr(di, n): f(p, q, bins=4))
    for n in "corr_to_angular_dist corr_to_abs_angular_dist corr_to_squared_angular_dist".split():
        add(n, "cor", getattr(di, n))
    for n in "pair_angular_distance pair_abs_angular_distance pair_squared_angular_distance".split():
        add(n, "x y", getattr(di, n))
    for n in "log_det_divergence von_neuman_divergence".split():
        add(n, "cov cov2", getattr(di, n))
    for o in ("ret", "aret"):
        for m in "pearson spearman".split():
            add("get_corr_distance_matrix:%s:%s" % (m, o), o, lambda X, m=m: di.get_corr_distance_matrix(X, corr_method=m))
        for m in "angular abs_angular squared_angular".split():
            add("get_corr_distance_matrix:%s:%s" % (m, o), o, lambda X, m=m: di.get_corr_distance_matrix(X, corr_to_dist_method=m))
        add("get_corr_distance_matrix:transformer:" + o, o, lambda X: di.get_corr_distance_matrix(X, corr_transformer=lambda c: np.clip(c, -0.5, 1)))
        for m in "mutual_info var_info".split():
            add("get_info_distance_matrix:%s:%s" % (m, o), o, lambda X, m=m: di.get_info_distance_matrix(X, method=m, bins=4))
    # clustering
    hc = lambda **k: cl.HC(**k)
    see = lambda h: [h.linkage, h.get_clusters(2), h.get_clusters(3)]
    for o in ("ret", "aret"):
        add("HC:X:" + o, o, lambda X: see(hc(X=X)))
        add("HC:info:" + o, o, lambda X: see(hc(X=X, codependence_method="var_info", linkage_method="average")))
        add("HC:best:" + o, o, lambda X: hc(X=X).get_optimal_nclusters(max_clust=3))
    for o in ("cor", "fcor"):
        add("HC:corr:" + o, o, lambda c: see(hc(corr=c)))
    for o in ("dist", "fdist"):
        add("HC:dist:" + o, o, lambda d: see(hc(dist=d, linkage_method="complete")))
        add("HC:silhouette:" + o, o, lambda d: hc(dist=d).get_optimal_nclusters(max_clust=4, metric="silhouette"))
        for l in ("labels", "slabels"):
            add("gap_statistic:%s:%s" % (o, l), o + " " + l, lambda d, l: cl.gap_statistic(d, l, nb=4))
            add("gap_statistic:state:%s:%s" % (o, l), o + " " + l, lambda d, l: cl.gap_statistic(d, l, nb=3, random_state=5))
            add("silhouette_tstat:%s:%s" % (o, l), o + " " + l, cl.silhouette_tstat)
    # covariance tools
    add("_cov_to_cor", "cov", cv._cov_to_cor)
    add("_cor_to_cov", "cor std", cv._cor_to_cov)
    add("_cor_to_eig", "cor", cv._cor_to_eig)
    add("_cor_to_eig:k", "cor", lambda c: cv._cor_to_eig(c, k=2))
    add("_cor_to_eig:unsorted", "cor", lambda c: cv._cor_to_eig(c, sort=False))
    add("_eig_to_cor", "eig vec", cv._eig_to_cor)
    add("_eig_complete", "eig2 vec2", cv._eig_complete)
    add("_cor_block_diagonal", "sizes cors", cv._cor_block_diagonal)
    add("_cor_block_diagonal:default", "", cv._cor_block_diagonal)
    add("_cor_denoise", "cor", lambda c: cv._cor_denoise(c, 60))
    add("_cor_denoise:k", "cor", lambda c: cv._cor_denoise(c, 60, k=2))
    add("_cov_denoise", "cov", lambda c: cv._cov_denoise(c, 60))
    add("_cov_denoise:few", "cov", lambda c: cv._cov_denoise(c, 4))
    add("_eigen_values_denoise", "eig", lambda e: cv._eigen_values_denoise(e, 60))
    add("_eigen_values_denoise:few", "eig", lambda e: cv._eigen_values_denoise(e, 4))
    add("_eigen_values_denoise:k", "eig", lambda e: cv._eigen_values_denoise(e, 60, k=2))
    add("_marchenko_pastur_pdf", "eig", lambda e: cv._marchenko_pastur_pdf(1.0, 60, 6, e))
    add("_marchenko_pastur_fit", "eig", lambda e: cv._marchenko_pastur_fit(60, 6, e))
    add("_random_cov", "", lambda: cv._random_cov(4), True)
    add("_random_cor", "", lambda: cv._random_cor(3), True)
    # simulation
    M = {"BM": sim.BrownianMotion, "GBM": sim.GeometricBrownianMotion, "OU": sim.OrnsteinUhlenbeck}
    vol = lambda k, d, v, c: M[k](mean=d, mrr=1.5, vol=v, cor=c) if k == "OU" else M[k](drift=d, vol=v, cor=c)
    for k in M:
        add("sample:%s:list" % k, "drift lcor", lambda d, c, k=k: vol(k, d, [0.1, 0.2], c).path_sample(x0=1.0, dt=0.1, num_steps=4, random_state=3))
        add("sample:%s:array" % k, "adrift avol acor x0", lambda d, v, c, x, k=k: vol(k, d, v, c).path_sample(x0=x, dt=0.1, num_steps=4, num_paths=2, random_state=3))
        add("sample:%s:columns" % k, "adrift avol cols", lambda d, v, c, k=k: vol(k, d, v, None).path_sample(x0=1.0, num_steps=3, label_start="2020-01-01", label_freq="D", columns=c, random_state=1))
        add("sample:%s:frame" % k, "adrift prices", lambda d, x, k=k: vol(k, d, 0.1, None).path_sample(x0=x.iloc[-1:], dt=0.1, num_steps=3, random_state=1, include_x0=False))
        for x in ("prices", "close", "lx"):
            if x != "lx":
                add("fit:%s:%s" % (k, x), x, lambda x, k=k: M[k]().fit(x))
                add("last:%s:%s" % (k, x), x, lambda x, k=k: M[k]().fit(x).path_sample(x0="last", num_steps=3, random_state=2))
                add("nll:%s:%s" % (k, x), x, lambda x, k=k: [getattr(M[k]().fit(x), q)(x) for q in ("nll", "aic", "bic")])
            else:
                add("fit:%s:%s" % (k, x), x, lambda x, k=k: rec.outcome(lambda: M[k]().fit(np.array(x), 0.1)))
        add("repr:" + k, "adrift", lambda d, k=k: repr(vol(k, d, 0.1, None)))
    qi = lambda x: np.r_[0.0, np.diff(x)] if x.ndim == 1 else x
    add("QuasiRandom", "x0", lambda x: sim.QuasiRandom(qi, 0.2, sim.BrownianMotion([0.1, 0.3], [0.1, 0.2])).path_sample(x0=x, dt=0.1, num_steps=8, random_state=4))
    add("QuasiRandom:default", "", lambda: sim.QuasiRandom(qi).path_sample(x0=1.0, dt=0.1, num_steps=8, num_paths=2, random_state=4))
    for k in M:                                                # results are random: only that nothing else changes
        add("unseeded:" + k, "adrift x0", lambda d, x, k=k: np.shape(vol(k, d, 0.1, None).path_sample(x0=x, dt=0.1, num_steps=4)))
    add("unseeded QuasiRandom", "", lambda: np.shape(sim.QuasiRandom(qi).path_sample(x0=1.0, dt=0.1, num_steps=8)))
    # splitters
    for o, y, gr in (("X", "x", "groups"), ("FX", "sx", "sgroups"), ("X", "y", "dates"), ("FX", "y", "sdates")):
        fr = "D" if "dates" in gr else None
        for w, kw in (("expanding", {}), ("rolling", {})):
            add("WalkForward:%s:%s" % (w, gr), "%s %s %s" % (o, y, gr), lambda X, y, g, w=w, fr=fr: rec.outcome(lambda: list(WalkForward(n_embargo=1, n_purge=1, train_window=5, test_window=3, split_type=w, freq=fr).split(X, y, g))))
            add("WalkForward:n:%s:%s" % (w, gr), "%s %s %s" % (o, y, gr), lambda X, y, g, w=w, fr=fr: rec.outcome(lambda: WalkForward(n_embargo=0, n_purge=0, train_window=5, test_window=3, split_type=w, freq=fr).get_n_splits(X, y, g)))
        for lf in (False, True):
            add("TimeAwareKFold:%s:%s" % (lf, gr), "%s %s %s" % (o, y, gr), lambda X, y, g, lf=lf, fr=fr: rec.outcome(lambda: list(TimeAwareKFold(n_folds=3, n_embargo=1, n_purge=1, look_forward=lf, freq=fr).split(X, y, g))))
    add("TimeAwareKFold:bare", "X", lambda X: list(TimeAwareKFold(n_folds=4, n_embargo=2, n_purge=1).split(X)))
    # other
    add("time_series_freq", "dates", time_series_freq)
    add("time_series_freq:series", "close", time_series_freq)
    add("time_series_freq:frame", "ret", time_series_freq)
    add("duration", "", lambda: [time_series_freq_to_duration(q) for q in ("D", "B", "W", "ME", "QS", "YE", "nonsense")])
    add("get_project_root", "", lambda: str(ut.get_project_root()))
    add("load_vix", "", lambda: ds.load_vix().iloc[:50])
    add("load_equity_indices", "", ds.load_equity_indices)
    add("load_treasury_rates", "", lambda: ds.load_treasury_rates().iloc[-80:])
    # the same functions on other containers, types and memory layouts
    for o in ("iclose", "hclose"):
        for n in "rolling_mean rolling_std rolling_max rolling_min rolling_mom".split():
            add(n + ":" + o, o, lambda s, f=getattr(ind, n): f(s, window=4))
        for n in "ewm_mean ewm_std ewm_mom".split():
            add(n + ":" + o, o, lambda s, f=getattr(ind, n): f(s, span=4))
        for n in "rsi ewm_rsi".split():
            add(n + ":" + o, o, lambda s, f=getattr(ind, n): f(s, period=4))
        add("macd:" + o, o, lambda s: [ind.macd(s, 3, 8), ind.macd_signal(s, 3, 8, 4)])
        add("BollingerBands:" + o, o, lambda s: use(ind.BollingerBands(s, 5)))
        add("EwmBollingerBands:" + o, o, lambda s: use(ind.EwmBollingerBands(s, 5)))
        add("DonchianBands:" + o, o, lambda s: use(ind.DonchianBands(s, 5)))
        add("get_close_close_volatility:" + o, o, lambda c: ms.get_close_close_volatility(c, 5))
        add("get_roll_measure:" + o, o, lambda c: ms.get_roll_measure(c, 5))
    for n in "rolling_mean rolling_std rolling_max rolling_min rolling_mom".split():
        add(n + ":array", "sclose", lambda s, f=getattr(ind, n): f(s, window=4))
    for n in "ewm_mean ewm_std ewm_mom".split():
        add(n + ":array", "sclose", lambda s, f=getattr(ind, n): f(s, span=4))
    for n in "rsi ewm_rsi".split():
        add(n + ":array", "sclose", lambda s, f=getattr(ind, n): f(s, period=4))
    add("cusum:view", "sclose", cusum)
    for n in "get_becker_parkinson_volatility get_high_low_volatility get_cowrin_schultz_spread".split():
        add(n + ":gaps", "ghigh glow", lambda h, l, f=getattr(ms, n): f(h, l, 5))
    for n in "get_roll_impact get_amihud_lambda get_kyle_lambda get_hasbrouck_lambda".split():
        add(n + ":quiet", "close zvolume", lambda c, v, f=getattr(ms, n): f(c, v, 5))
        add(n + ":gaps", "gaps zvolume", lambda c, v, f=getattr(ms, n): f(c, v, 5))
    add("get_vpin:quiet", "zvolume buy", lambda v, b: ms.get_vpin(v, b, 5))
    add("average_true_range:gaps", "ghigh glow gaps", lambda h, l, c: ind.average_true_range(h, l, c, 5))
    add("estimate_buy_volume:gaps", "gaps zvolume sigma", ms.estimate_buy_volume)
    for o in ("Fcov", "ocov"):
        add("_cov_to_cor:" + o, o, cv._cov_to_cor)
        add("_cov_denoise:k:" + o, o, lambda c: cv._cov_denoise(c, 60, k=2))
    add("_cov_denoise:Fcov", "Fcov", lambda c: cv._cov_denoise(c, 60))
    add("_cor_denoise:Fcor", "Fcor", lambda c: cv._cor_denoise(c, 4))
    add("_cor_to_eig:Fcor", "Fcor", lambda c: [cv._cor_to_eig(c), cv._cor_to_eig(c, k=3)])
    add("_eig_complete:full", "eig vec", cv._eig_complete)
    add("_eig_to_cor:ueig", "ueig vec", cv._eig_to_cor)
    add("_marchenko_pastur_fit:ueig", "ueig", lambda e: cv._marchenko_pastur_fit(60, 6, e))
    add("_cor_to_cov:ocor", "ocor std", cv._cor_to_cov)
    for n in "corr_to_angular_dist corr_to_abs_angular_dist corr_to_squared_angular_dist".split():
        for o in ("fcor", "Fcor", "ocor", "wcor"):
            add(n + ":" + o, o, getattr(di, n))
    for m in "angular abs_angular squared_angular".split():
        for o in ("ocor", "wcor"):
            add("corr_to_dist:%s:%s" % (m, o), o, lambda c, m=m: di.corr_to_dist(c, m))
    for n in "log_det_divergence von_neuman_divergence".split():
        add(n + ":Fcov", "Fcov cov2", getattr(di, n))
    for n in "compute_entropies mutual_info var_info kl_divergence_xy".split():
        add(n + ":ties", "tx x", lambda p, q, f=getattr(di, n): f(p, q, bins=6))
    add("mutual_info:raw", "tx sx", lambda p, q: [di.mutual_info(p, q, norm=False), di.var_info(p, q, norm=False)])
    add("HC:wcor", "wcor ret", lambda c, X: rec.outcome(lambda: see(hc(corr=c, X=X, corr_to_dist_method="abs_angular"))))
    add("HC:names", "ret dist", lambda X, d: see(hc(X=X, dist=d, linkage_method="centroid", optimal_ordering=False)))
    add("gap_statistic:names", "dist slabels2", lambda d, l: cl.gap_statistic(d, l, nb=3))
    add("silhouette_tstat:names", "fdist slabels2", cl.silhouette_tstat)
    for k in M:
        for x in ("nprices", "Fprices", "oneprice"):
            a = () if x == "nprices" else (0.1,)
            add("fit:%s:%s" % (k, x), x, lambda x, k=k, a=a: M[k]().fit(x, *a))
            add("use:%s:%s" % (k, x), x, lambda x, k=k, a=a: (lambda m: [m.path_sample(x0="first", dt=0.1, num_steps=3, random_state=2), [getattr(m, q)(x, *a) for q in ("nll", "aic", "bic")]])(M[k]().fit(x, *a)))
    for gr in ("lgroups", "igroups"):
        add("WalkForward:" + gr, "X x " + gr, lambda X, y, g: rec.outcome(lambda: list(WalkForward(n_embargo=1, n_purge=0, train_window=4, test_window=2).split(X, y, g))))
        add("TimeAwareKFold:" + gr, "FX x " + gr, lambda X, y, g: rec.outcome(lambda: list(TimeAwareKFold(n_folds=3, n_embargo=1, n_purge=1).split(X, y, g))))
    add("unsorted groups", "X x y", lambda X, y, g: [rec.outcome(lambda: list(TimeAwareKFold(n_folds=3, n_embargo=1, n_purge=1).split(X, y, g)))[0], rec.outcome(lambda: list(WalkForward(n_embargo=1, n_purge=0, train_window=4, test_window=2).split(X, y, g)))[0]])
    # long-lived: instances used over and over
    kf, wf = TimeAwareKFold(n_folds=3, n_embargo=1, n_purge=2), WalkForward(n_embargo=1, n_purge=0, train_window=8, test_window=4)
    add("kept kfold", "X groups", lambda X, g: rec.outcome(lambda: list(kf.split(X, groups=g))))
    add("kept walk", "X", lambda X: (list(wf.split(X)), wf.get_n_splits(X)))
    for k in M:
        m = M[k]().fit(build("prices", 0))
        add("kept model:" + k, "x0", lambda x, m=m: m.path_sample(x0=x, num_steps=3, num_paths=2, random_state=9))
        add("kept model last:" + k, "", lambda m=m: m.path_sample(x0="last", num_steps=3, random_state=9))
        add("kept model nll:" + k, "prices", lambda x, m=m: [m.nll(x), m.aic(x), m.bic(x)])
    hk = cl.HC(corr=build("cor", 0))
    add("kept HC", "", lambda: [hk.get_clusters(2), hk.get_clusters(4), hk.get_optimal_nclusters(max_clust=4)])
    bb, kb = ind.BollingerBands(build("close", 0), 5), ind.KeltnerBands(build("high", 0), build("low", 0), build("close", 0), 4, 5)
    add("kept bands", "", lambda: use(bb) + use(kb))
    ab, eb, db = ind.BollingerBands(build("aclose", 0), 5), ind.EwmBollingerBands(build("aclose", 1), 5), ind.DonchianBands(build("aclose", 0), 5)
    add("kept array bands", "", lambda: use(ab) + use(eb) + use(db))
    return C, D


def call(cat, name, args):
    """Run one call; generators are exhausted."""
    import joblib
    with joblib.parallel_config(backend="threading", n_jobs=1):
        z = rec.outcome(lambda: cat[name][1](*args))
    return z if z[0] == "raise" else ("ok", z[1])


def ambient(out):
    settings = (np.geterr(), np.get_printoptions(), os.getcwd(), sorted(os.environ.items()), [pd.get_option(q) for q in ("mode.chained_assignment", "display.max_rows", "compute.use_numexpr")])
    return dict(npr=hashlib.sha256(pickle.dumps(np.random.get_state())).hexdigest()[:12], pyr=hashlib.sha256(repr(random.getstate()).encode()).hexdigest()[:12],
                out="%d" % out.tell(), set=hashlib.sha256(repr(settings).encode()).hexdigest()[:12])


# ---- fresh processes ---------------------------------------------------------------------------------------------
def serve():
    """Answer requests [name, versions, seed], each in a process of its own that has called nothing before."""
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    cat, _ = catalogue()
    while True:
        line = sys.stdin.readline()
        if not line:
            return
        name, vs, seed = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if seed is not None:
                        np.random.seed(seed)
                    d = dig(call(cat, name, [build(o, v) for o, v in zip(cat[name][0], vs)]))
            except BaseException as e:
                d = "died " + repr(e)[:60]
            os.write(w, d.encode())
            os._exit(0)
        os.close(w)
        d = os.read(r, 200).decode()
        os.close(r)
        os.waitpid(pid, 0)
        real.write(d + "\n")
        real.flush()


SERVER, KNOWN = None, {}


def fresh(name, vs, seed=None):
    global SERVER
    key = json.dumps([name, vs, seed])
    if key not in KNOWN:
        if SERVER is None:
            SERVER = subprocess.Popen([sys.executable, "-W", "ignore", os.path.abspath(__file__), "--serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                      env=dict(os.environ, PYTHONHASHSEED=str(os.getpid() % 1000 + 1)))
        SERVER.stdin.write(key + "\n")
        SERVER.stdin.flush()
        KNOWN[key] = SERVER.stdout.readline().strip()
    return KNOWN[key]


# ---- sessions ----------------------------------------------------------------------------------------------------
CAT = None


def generate(a, behs, rnd):
    cat, draws = catalogue()
    names = sorted(cat)
    plain = [n for n in names if n not in draws]
    rnd.shuffle(behs)
    # every function in a scripted session, next to a random one
    reps = 2 if not a.thorough else 12
    i = 0
    for _ in range(reps):
        for n in plain:
            b = behs[i % len(behs)]
            i += 1
            yield dict(kind="script", h=b["h"], f=n, g=rnd.choice(plain), r=rnd.choice(sorted(draws)), s=rnd.randrange(1 << 30))
    for _ in range(150 if not a.thorough else 4000):
        # longer sessions over a few functions that share objects
        base = rnd.choice(plain)
        near = [n for n in plain if set(cat[n][0]) & set(cat[base][0])] or plain
        fs = [base] + [rnd.choice(near if rnd.random() < 0.7 else plain) for _ in range(5)]
        ops = []
        for _ in range(24):
            u = rnd.random()
            if u < 0.68:
                ops.append(("call", rnd.choice(fs)))
            elif u < 0.72:
                ops.append(("call", rnd.choice(sorted(draws))))
            elif u < 0.84:
                ops.append(("edit", rnd.choice(sorted(set(o for n in fs for o in cat[n][0])) or ["x"])))
            elif u < 0.94:
                ops.append(("scribble", ""))
            else:
                ops.append(("reseed", ""))
        yield dict(kind="long", ops=ops, s=rnd.randrange(1 << 30))


def script(case, cat):
    """The concrete operations of a behaviour of the specification: f, g, r are functions, a and b objects of f and g."""
    g = np.random.default_rng(case["s"])
    pick = lambda xs: xs[int(g.integers(0, len(xs)))] if xs else None
    oa = pick(cat[case["f"]][0]) or "x"
    ob = pick([o for o in cat[case["g"]][0] if o != oa]) or "y"
    ops = []
    for h in case["h"]:
        ops.append(("call", case[h["x"]]) if h["op"] == "call" else ("edit", oa if h["x"] == "a" else ob) if h["op"] == "edit" else (h["op"], ""))
    return ops


def execute(case):
    global CAT
    if CAT is None:
        CAT = catalogue()
    cat, draws = CAT
    g = np.random.default_rng(case["s"])
    ops = script(case, cat) if case["kind"] == "script" else [tuple(o) for o in case["ops"]]
    used = sorted(set(o for op, x in ops for o in (cat[x][0] if op == "call" else [x] if op == "edit" else [])))
    v0 = int(g.integers(0, 2))
    ver = {o: v0 for o in used}
    heap = {o: build(o, v0) for o in used}
    out, old = io.StringIO(), sys.stdout
    sys.stdout = out
    seed = 11
    np.random.seed(seed)
    random.seed(5)
    drawn = False
    live, dead = [], set()
    digs = lambda: {o: dig(x) for o, x in heap.items()} or {"none": "none"}
    ev = []
    try:
        start = dict(heap=digs(), amb=ambient(out))
        for op, x in ops:
            e = dict(op=op, name=op, objs=[], draws=False, res="", fresh="", o="", c="")
            if op == "call":
                seeded = x in draws
                if seeded and drawn:
                    continue                                    # draws follow a known state only: at the start or after reseeding
                e.update(name=x, objs=cat[x][0], draws=seeded, fresh=fresh(x, [ver[o] for o in cat[x][0]], seed if seeded else None))
                z = call(cat, x, [heap[o] for o in cat[x][0]])
                e["res"] = dig(z)
                drawn = drawn or seeded
                live.append([z[1] if z[0] == "ok" else None, dig(z[1]) if z[0] == "ok" else dig(None)])
            elif op == "edit":
                if x in FIXED:
                    continue
                ver[x] = 1 - ver[x]
                edit(heap[x], build(x, ver[x]))
                e.update(o=x, c=dig(heap[x]))
            elif op == "scribble":
                if not live:
                    continue
                scribble(live[-1][0])
                live[-1][1] = dig(live[-1][0])
            else:
                seed = 11 if seed != 11 or drawn else 12
                np.random.seed(seed)
                drawn = False
            e["lc"] = [i + 1 for i, (l, d) in enumerate(live) if dig(l) != d]
            for i in e["lc"]:
                live[i - 1][1] = dig(live[i - 1][0])
            e["heap"], e["amb"] = digs(), ambient(out)
            ev.append(e)
    finally:
        sys.stdout = old
    return dict(kind="session", heap=start["heap"], amb=start["amb"], ev=ev)


if __name__ == "__main__":
    if "--serve" in sys.argv:
        warnings.simplefilter("ignore")
        serve()
    else:
        rec.main(generate, execute)
