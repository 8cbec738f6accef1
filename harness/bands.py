"""Band objects under every order of calls."""
import random

import numpy as np
import pandas as pd

import features as ft
import rec
from rec import fl, fls

METHODS = ["upper", "middle", "lower", "bandwidth", "percent_b"]


KINDS = ["bollinger", "ewm", "keltner", "donchian", "generic"]
COLS = dict(keltner=("x", "h", "l"), generic=("x", "m", "s"))


def data(rnd, kind, n):
    d = ft.moderate(rnd, n)
    if rnd.random() < 0.15 and kind != "keltner":
        m = d["x"][0] * rnd.choice([1.5, 2])
        d["x"] = [v - m for v in d["x"]]
    if rnd.random() < 0.05:
        d["x"] = [d["x"][0]] * n
        d["h"] = [max(a, d["x"][0]) for a in d["h"]]
        d["l"] = [min(a, d["x"][0]) for a in d["l"]]
    if rnd.random() < 0.12 and kind != "keltner":         # small integers about zero: middles of exactly zero
        d["x"] = [float(rnd.randint(-2, 2)) for _ in range(n)]
    d["m"] = [v * rnd.uniform(0.9, 1.1) for v in d["x"]]
    d["s"] = [abs(v) * rnd.choice([0, rnd.uniform(0, 0.3)]) for v in d["x"]]
    if rnd.random() < 0.2:                                # any unit of price
        f = 10.0 ** rnd.choice([-8, -4, 4, 6, 8, 9])
        d = {c: [v * f for v in d[c]] for c in d}
    return {c: d[c] for c in COLS.get(kind, ("x",))}


def generate(a, behs, rnd):
    rnd.shuffle(behs)
    todo = [(b["kind"], b["calls"], 0) for b in behs[:700 if not a.thorough else 4000]]
    todo += [(KINDS[i % 5], [], 1 if i < 10 else 0) for i in range(400 if not a.thorough else 3000)]
    for kind, calls, long in todo:
        n = rnd.choice([130, 300]) if long else rnd.choice([1, 2, 3, 5, 8, 12, 20, 30, rnd.randint(1, 40)])
        p = dict(w=rnd.choice([1, 2, 3, 4, 5, 10, n, n + 1, rnd.randint(1, 12)]), w2=rnd.randint(1, 12))
        mult = rnd.choice([0, 0.5, 1, 2, 2, 3, 2.5, -1, round(rnd.uniform(0, 4), 3), round(rnd.uniform(-4, 0), 2), rnd.choice([1e-3, 50, 300.25])])
        if long:
            p = dict(w=rnd.choice([20, 64, 100]), w2=rnd.choice([14, 30]))
        omit = []
        if rnd.random() < 0.15 and kind != "generic":
            omit = [k for k in ("w", "w2", "mult") if rnd.random() < 0.8]
            p.update({k: {"w": 20, "w2": 10}[k] for k in omit if k != "mult"})
            mult = 2 if "mult" in omit else mult
        yield dict(kind=kind, calls=calls, data=data(rnd, kind, n), p=p, omit=omit, mult=mult if kind != "donchian" else 1,
                   other=rnd.random() < 0.4, spoil=rnd.random() < 0.4, form=rnd.choice(["np", "pd"]), s=rnd.randrange(1 << 30))


def make(kind, d, p, mult, conv, omit=()):
    from quantfinlib.feature import indicators as ind
    kw = dict(window=p["w"], multiplier=mult)
    if kind == "generic":
        return ind.GenericBands(conv(d["x"]), conv(d["m"]), conv(d["s"]), mult)
    if kind == "keltner":
        kw["window_atr"] = p["w2"]
    for k, a in (("w", "window"), ("w2", "window_atr"), ("mult", "multiplier")):
        if k in omit:
            kw.pop(a, None)
    if kind == "donchian":
        kw.pop("multiplier", None)
        return ind.DonchianBands(conv(d["x"]), **kw)
    if kind == "bollinger":
        return ind.BollingerBands(conv(d["x"]), **kw)
    if kind == "ewm":
        return ind.EwmBollingerBands(conv(d["x"]), **kw)
    return ind.KeltnerBands(conv(d["h"]), conv(d["l"]), conv(d["x"]), **kw)


def see(r, index):
    v = r[1] if r[0] == "ok" else None
    cont = "np" if type(v) is np.ndarray else "pd" if type(v) is pd.Series else "other"
    return dict(r="ok" if r[0] == "ok" else r[1], cont=cont, index=bool(cont != "pd" or v.index.equals(index)), out=fls(np.asarray(v, dtype=float)) if cont != "other" else [])


def execute(case):
    rnd = random.Random(case["s"])
    d, kind, p, mult = case["data"], case["kind"], case["p"], case["mult"]
    n = len(d["x"])
    lab, ix = rnd.choice(list(ft.indexes(rnd, n)))
    np_ = lambda v: np.array(v, dtype=float)
    pd_ = lambda v: pd.Series(np.array(v, dtype=float), index=ix)
    mine, other = (np_, pd_) if case["form"] == "np" else (pd_, np_)
    out = dict(kind=kind, p=p, mult=fl(mult), form=case["form"], calls=[], alts=[], io=[], r="ok", **{"in": {c: fls(d[c]) for c in d}})
    r = rec.outcome(lambda: make(kind, d, p, mult, mine, case["omit"]))
    if r[0] != "ok":
        out["r"] = r[1]
        return out
    b = r[1]
    rest = METHODS[:]
    rnd.shuffle(rest)
    twin = make(kind, data(rnd, kind, n), p, mult, mine) if case["other"] else None   # another object of the class, used in between
    again = [rnd.choice(METHODS) for _ in range(3)] if case["spoil"] else []
    for m in list(case["calls"]) + rest + again:
        if twin is not None and rnd.random() < 0.6:
            rec.outcome(getattr(twin, rnd.choice(METHODS)))
        z = rec.outcome(getattr(b, m))
        out["calls"].append(dict(m=m, **see(z, ix)))
        if case["spoil"] and z[0] == "ok":
            try:
                z[1][:] = -77.0          # the caller overwrites what it was given
            except Exception:
                pass
    for t in sorted({1, n // 2, rnd.randint(1, n), n}):
        if t < 1:
            continue
        m = rnd.randint(0, 6)
        f = data(rnd, kind, m) if m else {c: [] for c in d}
        e = {c: d[c][:t] + f[c] for c in d}
        q = rec.outcome(lambda: make(kind, e, p, mult, np_, case["omit"]))
        o = {}
        ok = q[0] == "ok"
        for mm in METHODS:
            z = rec.outcome(getattr(q[1], mm)) if ok else q
            o[mm] = fls(np.asarray(z[1], dtype=float)) if z[0] == "ok" else []
        out["alts"].append(dict(n=t, len=t + m, r="ok" if ok else q[1], out=o))
    q = rec.outcome(lambda: make(kind, d, p, mult, other, case["omit"]))
    for m in METHODS:
        out["io"].append(dict(m=m, want="np" if other is np_ else "pd", **see(rec.outcome(getattr(q[1], m)) if q[0] == "ok" else q, ix)))
    return out


if __name__ == "__main__":
    rec.main(generate, execute)
