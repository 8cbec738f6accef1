"""Calls of every feature function of the library."""
import math

import numpy as np
import pandas as pd

import rec
from rec import fl, fls

P = {  # name -> (columns (argument, column), parameters (argument, key), smallest window)
    "rolling_mean": ([("ts", "x")], [("window", "w")], 1), "rolling_std": ([("ts", "x")], [("window", "w")], 1),
    "rolling_max": ([("ts", "x")], [("window", "w")], 1), "rolling_min": ([("ts", "x")], [("window", "w")], 1),
    "rolling_mom": ([("ts", "x")], [("window", "w")], 1), "ewm_mean": ([("ts", "x")], [("span", "w")], 1),
    "ewm_std": ([("ts", "x")], [("span", "w")], 2), "ewm_mom": ([("ts", "x")], [("span", "w"), ("min_periods", "w2")], 1),
    "average_true_range": ([("high", "h"), ("low", "l"), ("close", "x")], [("window", "w")], 1),
    "rsi": ([("ts", "x")], [("period", "w")], 1), "ewm_rsi": ([("ts", "x")], [("period", "w")], 1),
    "macd": ([("ts", "x")], [("fast", "w"), ("slow", "w2")], 1),
    "macd_signal": ([("ts", "x")], [("fast", "w"), ("slow", "w2"), ("signal", "w3")], 1),
    "get_close_close_volatility": ([("p_close", "x")], [("window", "w")], 1),
    "get_high_low_volatility": ([("p_high", "h"), ("p_low", "l")], [("window", "w")], 1),
    "get_garman_klass_volatility": ([("p_high", "h"), ("p_low", "l"), ("p_open", "o"), ("p_close", "x")], [("window", "w")], 1),
    "get_rogers_satchell_volatility": ([("p_high", "h"), ("p_low", "l"), ("p_open", "o"), ("p_close", "x")], [("window", "w")], 1),
    "get_yang_zhang_volatility": ([("p_high", "h"), ("p_low", "l"), ("p_open", "o"), ("p_close", "x")], [("window", "w")], 2),
    "get_becker_parkinson_volatility": ([("p_high", "h"), ("p_low", "l")], [("window", "w")], 1),
    "get_cowrin_schultz_spread": ([("p_high", "h"), ("p_low", "l")], [("window", "w")], 1),
    "get_roll_measure": ([("p_close", "x")], [("window", "w")], 2),
    "get_roll_impact": ([("p_close", "x"), ("volume", "v")], [("window", "w")], 2),
    "get_kyle_lambda": ([("p_close", "x"), ("volume", "v")], [("window", "w")], 1),
    "get_amihud_lambda": ([("p_close", "x"), ("volume", "v")], [("window", "w")], 1),
    "get_hasbrouck_lambda": ([("p_close", "x"), ("volume", "v")], [("window", "w")], 1),
    "get_vpin": ([("volume", "v"), ("buy_volume", "b")], [("window", "w")], 1),
    "estimate_buy_volume": ([("p_close", "x"), ("volume", "v"), ("sigma_p", "s")], [], 1),
    "get_edge_spread": ([("p_high", "h"), ("p_low", "l"), ("p_open", "o"), ("p_close", "x")], [("window", "w"), ("sign", "w2")], 2),
    "cusum": ([("y", "x")], [], 1),
}
IND = ["rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_std", "ewm_mom",
       "average_true_range", "rsi", "ewm_rsi", "macd", "macd_signal"]
RANGE = [n for n in P if n.endswith("volatility")] + ["get_cowrin_schultz_spread"]
LIQ = [n for n in P if n.startswith("get_") and n not in RANGE] + ["estimate_buy_volume"]
BOUNDED = ["rsi", "ewm_rsi", "get_vpin", "estimate_buy_volume", "rolling_mean", "rolling_min", "rolling_max", "rolling_std", "ewm_std",
           "average_true_range", "get_close_close_volatility", "get_high_low_volatility", "get_becker_parkinson_volatility",
           "get_cowrin_schultz_spread", "get_roll_measure", "get_roll_impact", "get_kyle_lambda", "get_amihud_lambda",
           "get_hasbrouck_lambda", "get_rogers_satchell_volatility"]


def fn(name):
    import quantfinlib.feature.indicators as ind
    import quantfinlib.feature.micro_structure as ms
    from quantfinlib.feature.structural_breaks.cusumtest import chu_stinchcombe_white_cusum_test
    if name == "cusum":
        return chu_stinchcombe_white_cusum_test
    return getattr(ind, name, None) or getattr(ms, name)


DEFAULTS = {  # documented default parameters
    **{n: dict(w=20) for n in ("rolling_mean", "rolling_std", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_std", "get_hasbrouck_lambda")},
    "ewm_mom": dict(w=20, w2=0), "average_true_range": dict(w=14), "rsi": dict(w=14), "ewm_rsi": dict(w=14), "macd": dict(w=12, w2=26),
    "macd_signal": dict(w=12, w2=26, w3=9), "get_kyle_lambda": dict(w=10), "get_amihud_lambda": dict(w=10), "get_edge_spread": dict(w2=0)}


# ---- data ------------------------------------------------------------------------------------------------------
def prices(rnd, n):
    """A positive price series of moderate range."""
    level = 10.0 ** rnd.choice([0, 0, 1, 2, 2, 3, rnd.uniform(-3, 5), rnd.uniform(-9, 9)])
    vol = rnd.choice([0.001, 0.01, 0.01, 0.03, 0.1, 0.03, 0.01, 10.0 ** rnd.uniform(-8, -3)])
    kind = rnd.choice(["walk", "walk", "walk", "tick", "up", "down", "flat", "stretch", "zigzag", "jump"])
    r = [rnd.gauss(0, vol) for _ in range(n)]
    if kind == "up":
        r = [abs(a) + 1e-4 for a in r]
    elif kind == "down":
        r = [-abs(a) - 1e-4 for a in r]
    elif kind == "flat":
        r = [0.0] * n
    elif kind == "stretch":
        i = 0
        while i < n:
            m = rnd.randint(1, 6)
            z = rnd.random() < 0.5
            for j in range(i, min(n, i + m)):
                r[j] = 0.0 if z else r[j]
            i += m
    elif kind == "zigzag":
        r = [vol if i % 2 else -vol for i in range(n)]
    elif kind == "jump" and n > 2:
        r[rnd.randrange(1, n)] = rnd.choice([-1, 1]) * rnd.uniform(0.3, 1.5)
    x = [level]
    for a in r[1:]:
        x.append(x[-1] if a == 0.0 else x[-1] * math.exp(a))
    if kind == "tick":
        x = [max(round(a / level, 2), 0.01) * level for a in x]
    return x


def moderate(rnd, n):
    x = prices(rnd, n)
    touch = rnd.random() < 0.3
    flat = rnd.random() < 0.2
    o, h, l = [], [], []
    for i, c in enumerate(x):
        q = (x[i - 1] if i else c) * math.exp(rnd.gauss(0, 0.005)) if rnd.random() < 0.8 else c
        hi, lo = max(q, c), min(q, c)
        if not (touch and rnd.random() < 0.5):
            hi *= 1 + rnd.uniform(0, 0.02)
        if not (touch and rnd.random() < 0.5):
            lo *= 1 - rnd.uniform(0, 0.02)
        if flat and rnd.random() < 0.4:
            q = hi = lo = c
        o.append(q); h.append(hi); l.append(lo)
    v = [math.exp(rnd.gauss(3, 1)) if rnd.random() < 0.8 else float(rnd.randint(1, 9)) for _ in x]
    b = [w * rnd.choice([0.0, 1.0, 0.5, rnd.random(), rnd.random()]) for w in v]
    s = [math.exp(rnd.gauss(0, 0.7)) * max(x) * 0.01 for _ in x]
    return dict(x=x, h=h, l=l, o=o, v=v, b=b, s=s)


def extreme(rnd, n):
    k = rnd.choice(["wild", "runs", "tiny", "huge", "spike"])
    if k == "wild":
        x = [10.0 ** rnd.uniform(-9, 9) for _ in range(n)]
    elif k == "runs":
        x, d = [10.0 ** rnd.uniform(-4, 4)], 1
        while len(x) < n:
            if rnd.random() < 0.15:
                d = -d
            x.append(x[-1] * (10.0 ** (d * rnd.uniform(0.001, 0.8))))
            if not 1e-11 < x[-1] < 1e11:
                x[-1] = 1.0
    elif k == "tiny":
        x = [1.0 + rnd.randint(-5, 5) * 2.0 ** -50 for _ in range(n)]
    elif k == "huge":
        x = [1e12 * (1 + rnd.random()) for _ in range(n)]
    else:
        x = [1.0 + 0.01 * rnd.random() for _ in range(n)]
        x[rnd.randrange(n)] = 10.0 ** rnd.uniform(6, 12)
    o = [c * math.exp(rnd.gauss(0, rnd.choice([0, 0.001, 1.0]))) for c in x]
    h = [max(a, c) * (1 + rnd.choice([0, 0, 1e-12, rnd.random(), 10.0 ** rnd.uniform(0, 5)])) for a, c in zip(o, x)]
    l = [min(a, c) / (1 + rnd.choice([0, 0, 1e-12, rnd.random(), 10.0 ** rnd.uniform(0, 5)])) for a, c in zip(o, x)]
    v = [10.0 ** rnd.uniform(-6, 9) for _ in x]
    b = [w * rnd.choice([0.0, 1.0, 0.5, rnd.random(), 1e-9, 1 - 1e-12]) for w in v]
    s = [10.0 ** rnd.uniform(-9, 3) for _ in x]
    return dict(x=x, h=h, l=l, o=o, v=v, b=b, s=s)


def from_model(beh, rnd):
    """A behaviour of FeatMC: columns as in FeatMC!Cols."""
    s = [float(a) for a in beh["x"]]
    n = len(s)
    h = [a + 1 + ((i + 1) % 2) for i, a in enumerate(s)]
    l = [a / 2 for a in s]
    v = [s[n - 1 - i] + i + 1 for i in range(n)]
    b = [min(s[n - 1 - i] / (i + 1), v[i]) for i in range(n)]
    return dict(x=s, h=h, l=l, o=[(a + c) / 2 for a, c in zip(h, l)], v=v, b=b, s=[1.0] * n)


def zeros(rnd, data):
    """Days without trade or without price uncertainty."""
    for c in ("v", "s"):
        if c in data and rnd.random() < 0.7:
            for i in rnd.sample(range(len(data[c])), rnd.randint(1, min(4, len(data[c])))):
                data[c][i] = 0.0
                if c == "v":
                    data["b"][i] = 0.0


def params(rnd, name, n):
    w = max(P[name][2], rnd.choice([1, 2, 2, 3, 4, 5, 7, 10, rnd.randint(1, 14), max(1, n - 1), n, n + 1]))
    p = dict(w=w, w2=rnd.randint(1, 16), w3=rnd.randint(1, 9))
    if name == "ewm_mom":
        p["w2"] = rnd.choice([0, 0, 1, 2, 3, 6])
    if name == "get_edge_spread":
        p["w2"] = rnd.choice([0, 1])
        p["w"] = min(w, 12)
    return p


def holes(rnd, data, name):
    """Days without a value."""
    n = len(data["x"])
    for i in rnd.sample(range(n), rnd.randint(1, min(3, n))):
        for c in (list(data) if rnd.random() < 0.5 else [rnd.choice(P[name][0])[1]]):
            data[c][i] = math.nan


def cols(name, data):
    return {c: data[c] for _, c in P[name][0]}


def generate(a, behs, rnd):
    t = a.thorough
    pr = a.prop
    names = {"C14": IND, "C17": RANGE, "C18": LIQ, "C19": ["cusum"], "C16": BOUNDED, "C12": list(P), "C13": [n for n in P if n != "cusum"]}[pr]
    why = {"C16": "bounds", "C12": "alts", "C13": "io"}.get(pr, "def")
    # behaviours of the model
    if why in ("def", "bounds"):
        pool = [b for b in behs if b["f"] in names]
        rnd.shuffle(pool)
        for b in pool[:6000 if t else 1500]:
            p = dict(w=b["p"]["w"], w2=b["p"]["w2"], w3=b["p"]["w3"])
            p["w"] = max(p["w"], P[b["f"]][2])
            yield dict(f=b["f"], p=p, data=cols(b["f"], from_model(b, rnd)), why=why, exact=False, form="np", s=0)
    per = {"def": 1400, "bounds": 2000, "alts": 1200, "io": 900}[why] * (6 if t else 1)
    for i in range(per):
        name = names[i % len(names)]
        big = why == "alts"
        n = rnd.choice([1, 2, 3, 5, 8, 12, 20, 30, 40, rnd.randint(1, 45)]) if not big else rnd.randint(4, 70)
        if why == "def" and name == "cusum":
            n = max(2, n)
        long = len(names) <= i < len(names) * (4 if why == "def" or name == "cusum" else 2) and name != "get_edge_spread"
        if long:
            n = rnd.choice([130, 257, 257, 300, 520 if i < 2 * len(names) else 260]) if name != "cusum" else rnd.choice([110, 200, 300])
        exact = False
        data = (extreme if why == "bounds" and rnd.random() < 0.8 else moderate)(rnd, n)
        if name == "cusum":
            n = max(n, 2)
            data = moderate(rnd, n)
            if rnd.random() < 0.2:                      # prices are powers of two: exact ties
                y = [0]
                for _ in range(rnd.randint(2, 18)):
                    y.append(max(0, min(2, y[-1] + rnd.choice([0, 0, 0, 1, 1, -1]))))
                data["x"], exact = [2.0 ** k for k in y], True
        ints = why == "io" and rnd.random() < 0.3
        if ints:
            m, top = max(max(v) for v in data.values()), rnd.choice([1e4, 1e4, 3e9])
            data = {c: [float(max(1, round(x * top / m))) for x in v] for c, v in data.items()}
        p = params(rnd, name, n)
        if long:
            p["w"] = rnd.choice([5, 20, 21, 64, 100, 128, rnd.randint(30, 129)])
            p["w2"] = rnd.choice([26, 60])
        if why in ("alts", "io") and rnd.random() < 0.12 and name not in ("cusum", "get_edge_spread"):
            holes(rnd, data, name)
            ints = False
        if why == "alts" and rnd.random() < 0.35 and name in LIQ and name != "get_edge_spread":
            zeros(rnd, data)
        omit = []
        if name in DEFAULTS and rnd.random() < 0.15:
            omit = [k for k in DEFAULTS[name] if rnd.random() < 0.8]
            p.update({k: DEFAULTS[name][k] for k in omit})
        if why in ("def", "io") and rnd.random() < 0.01 and name != "cusum":
            data, ints = {k: v[:0] for k, v in data.items()}, False
        c = dict(f=name, p=p, omit=omit, data=cols(name, data), why=why, exact=exact, ints=ints, form=rnd.choice(["np", "pd", "pd"]), s=rnd.randrange(1 << 30))
        yield c


# ---- calls -----------------------------------------------------------------------------------------------------
def call(name, columns, p, form="kw", omit=()):
    """columns: column -> object passed."""
    import joblib
    cs, ps, _ = P[name]
    kv = [(arg, columns[c]) for arg, c in cs] + [(arg, (bool(p[k]) if arg == "sign" else p[k])) for arg, k in ps if k not in omit]
    if omit and form == "pos":
        form = "mix"
    f = fn(name)
    with joblib.parallel_config(backend="threading", n_jobs=1):
        if form == "kw":
            return f(**dict(kv))
        if form == "rev":
            return f(**dict(kv[::-1]))
        if form == "pos":
            return f(*[v for _, v in kv])
        return f(*[v for _, v in kv[:1]], **dict(kv[1:]))


def run(name, data, p, form="np", omit=()):
    n = len(next(iter(data.values())))
    conv = (lambda v: np.array(v, dtype=float)) if form == "np" or name == "cusum" else (lambda v: pd.Series(np.array(v, dtype=float), index=pd.date_range("2021-03-01", periods=n, freq="D")))
    return rec.outcome(lambda: call(name, {c: conv(v) for c, v in data.items()}, p, "kw", omit))


def values(name, r):
    if r[0] != "ok":
        return []
    v = r[1][0] if name == "cusum" else r[1]
    return fls(np.asarray(v))


def scale(xs):
    m = [abs(float(x)) for x in xs]
    m = [x for x in m if math.isfinite(x)]
    return fl(max(m)) if m else "0.0"


def alts(case, rnd):
    name, data, p = case["f"], case["data"], case["p"]
    n = len(next(iter(data.values())))
    out = []
    omit = case["omit"]
    odd = sorted({i + 1 for v in data.values() for i, a in enumerate(v) if a == 0.0 or a != a})      # the rows next to a gap
    cuts = sorted(set([1, n - 1, n // 2, rnd.randint(1, n), rnd.randint(1, n)] + rnd.sample(odd, min(2, len(odd)))))
    for t in cuts:
        if t < 1 or t > n or (name == "cusum" and t < 2):
            continue
        d = {c: v[:t] for c, v in data.items()}
        r = run(name, d, p, case["form"], omit)
        out.append(dict(n=t, len=t, r="ok" if r[0] == "ok" else r[1], out=values(name, r)))
        m = n - t
        if m and rnd.random() < 0.8:
            other = moderate(rnd, m + rnd.randint(0, 5)) if rnd.random() < 0.6 else extreme(rnd, m)
            if rnd.random() < 0.3:
                holes(rnd, other, name)
            if rnd.random() < 0.3:
                zeros(rnd, other)
            d = {c: v[:t] + other[c] for c, v in data.items()}
            r = run(name, d, p, case["form"], omit)
            k = len(next(iter(d.values())))
            out.append(dict(n=t, len=k, r="ok" if r[0] == "ok" else r[1], out=values(name, r)))
    return out


def indexes(rnd, n):
    k = list(range(n))
    sh = k[:]
    rnd.shuffle(sh)
    yield "dates", pd.date_range("2020-01-01", periods=n, freq="B")
    yield "shuffled labels", pd.Index(sh)
    yield "repeated labels", pd.Index([i // 2 for i in k])
    yield "one repeated label", pd.Index([7] * n)
    yield "descending labels", pd.Index(k[::-1])
    yield "descending dates", pd.date_range("2020-01-01", periods=n, freq="D")[::-1]
    yield "text labels", pd.Index(["r%d" % (i * 7 % 11) for i in k])
    yield "float labels", pd.Index([0.5 * i for i in sh])
    yield "labels with a zone and a name", pd.date_range("2020-03-28", periods=n, freq="6h", tz="Europe/Paris", name="when")
    yield "periods", pd.period_range("2020-01", periods=n, freq="M", name="m")
    yield "spaced integers", pd.Index([10 * i + 5 for i in k], name="t")
    yield "durations", pd.to_timedelta(sh, unit="min")
    yield "two-level labels", pd.MultiIndex.from_arrays([[i // 3 for i in k], k])


def io(case, rnd):
    name, data, p = case["f"], case["data"], case["p"]
    n = len(next(iter(data.values())))
    out = []

    omit = case["omit"]

    def add(label, want, columns, form="kw", index=None, ref=(), p=p):
        r = rec.outcome(lambda: call(name, columns, p, form, omit))
        v = r[1] if r[0] == "ok" else None
        cont = "np" if type(v) is np.ndarray else "pd" if type(v) is pd.Series else "other"
        same = True
        if cont == "pd" and index is not None:
            same = bool(v.index.equals(index)) and type(v.index) is type(index) and list(v.index.names) == list(index.names)
        o = []
        if r[0] == "ok":
            try:
                o = fls(np.asarray(v, dtype=float))
            except Exception:
                cont = "other"
        out.append(dict(name=label, want=want, r="ok" if r[0] == "ok" else r[1], cont=cont, index=same, out=o, ref=list(ref)))

    npc = {c: np.array(v, dtype=float) for c, v in data.items()}
    for lab, ix in rnd.sample(list(indexes(rnd, n)), 6):
        add("Series with " + lab, "pd", {c: pd.Series(np.array(v), index=ix, name=rnd.choice([None, "px", 3])) for c, v in data.items()}, index=ix)
    ix = pd.RangeIndex(n)
    sr = {c: pd.Series(np.array(v)) for c, v in data.items()}
    add("positional numpy", "np", npc, "pos")
    add("mixed-form numpy", "np", npc, "mix")
    add("positional Series", "pd", sr, "pos", ix)
    add("mixed-form Series", "pd", sr, "mix", ix)
    add("keywords in another order", "np", npc, "rev")
    add("keywords in another order", "pd", sr, "rev", ix)
    add("numpy-integer parameters", "pd", sr, "kw", ix, p={k: np.int64(v) for k, v in p.items()})
    add("other parameters", "np", npc, "kw", ref=fls(np.asarray(call(name, npc, dict(p, w=p["w"] + 1), "kw", omit))), p=dict(p, w=p["w"] + 1))
    f4 = {c: np.array(v, dtype=np.float32) for c, v in data.items()}
    s4 = {c: pd.Series(v) for c, v in f4.items()}
    want = rec.outcome(lambda: call(name, s4, p, "kw", omit))
    if want[0] == "ok":
        add("single-precision numpy", "np", f4, "kw", ref=fls(np.asarray(want[1], dtype=float)))
    # the same objects with other content
    for lab, kind in (("reused array", "np"), ("reused Series", "pd")):
        obj = {c: (v.copy() if kind == "np" else pd.Series(v.copy())) for c, v in npc.items()}
        rec.outcome(lambda: call(name, obj, p, "kw", omit))
        turned = {c: v[::-1].copy() for c, v in npc.items()}
        want = rec.outcome(lambda: call(name, turned, p, "kw", omit))
        for c in obj:
            obj[c][:] = turned[c]
        if want[0] == "ok":
            add(lab + " with other content", kind, obj, "kw", index=ix if kind == "pd" else None, ref=fls(np.asarray(want[1])))
    add("numpy after other calls", "np", npc)
    add("read-only numpy", "np", {c: ro(v) for c, v in npc.items()})
    add("strided numpy", "np", {c: np.repeat(v, 2)[::2] for c, v in npc.items()})
    if case["ints"]:
        add("integer numpy", "np", {c: np.array(v).astype(np.int64) for c, v in data.items()})
        add("integer Series", "pd", {c: pd.Series(np.array(v).astype(np.int64)) for c, v in data.items()}, index=ix)
    keys = list(data)
    if len(keys) > 1:
        for _ in range(2):
            m = rnd.sample(keys, rnd.randint(1, len(keys) - 1))
            for form in ("kw", "pos"):
                add("numpy and Series mixed (%s)" % form, "TypeError", {c: (npc[c] if c in m else sr[c]) for c in keys}, form)
    c = rnd.choice(keys)
    base = rnd.choice([npc, sr])
    for lab, bad in [("list", list(data[c])), ("tuple", tuple(data[c])), ("DataFrame", pd.DataFrame({"a": data[c]})), ("number", 3.5), ("None", None), ("text", "abc"), ("Index", pd.Index(data[c]))]:
        add(lab + " argument", "TypeError", dict(base, **{c: bad}), rnd.choice(["kw", "pos"]))
    return out


def ro(v):
    v = v.copy()
    v.setflags(write=False)
    return v


def execute(case):
    import random
    rnd = random.Random(case["s"])
    name, data, p = case["f"], case["data"], case["p"]
    omit = case.setdefault("omit", [])
    r = run(name, data, p, case["form"] if case["why"] != "io" else "np", omit)
    out = values(name, r)
    rec_ = dict(f=name, p=p, out=out, r="ok" if r[0] == "ok" else r[1], why=[case["why"]], scale=scale(out), exact=case["exact"],
                crit=fls(r[1][1]) if name == "cusum" and r[0] == "ok" else [], alts=[], io=[], form=case["form"],
                **{"in": {c: fls(v) for c, v in data.items()}})
    if case["why"] == "alts":
        rec_["alts"] = alts(case, rnd)
    if case["why"] == "io":
        rec_["io"] = io(case, rnd)
    return rec_


if __name__ == "__main__":
    rec.main(generate, execute)
