"""Paths of QuasiRandom next to the base model's."""
import numpy as np
import pandas as pd

import rec
import sim
from rec import fl, fls


def ema(x, a=0.3):
    y = np.zeros(len(x))
    for i in range(len(x)):
        y[i] = x[i] if i == 0 else a * x[i] + (1 - a) * y[i - 1]
    return y


def lagdiff(x, n):
    y = np.full(len(x), np.nan)
    y[n:] = x[n:] - x[:-n]
    return y


def holes(x):
    y = np.asarray(x, dtype=float) ** 2 % 3.0
    y[::4] = np.nan
    return y


IND = {"mom1": lambda x: lagdiff(x, 1), "mom3": lambda x: lagdiff(x, 3), "ema": lambda x: x - ema(x), "level": lambda x: x * 1.0,
       "sign": lambda x: np.sign(lagdiff(x, 1)) + 0.1 * np.arange(len(x)), "holes": holes, "centred": lambda x: x - np.mean(x),
       "mean3": lambda x: pd.Series(x).rolling(3).mean().to_numpy()}


def generate(a, behs, rnd):
    for _ in range(700 if not a.thorough else 6000):
        kind = rnd.choice(["BM", "BM", "GBM", "OU"])
        d = rnd.choice([1, 1, 2, 3])
        p = sim.rparams(rnd, kind, d, scalar_ok=False)
        p["vol"] = [max(0.01, v) for v in p["vol"]]
        if len(p["p2"]) == 1 and d > 1:
            p["p2"] = p["p2"] * d
        ar = sim.rargs(rnd, d, "explicit", kind == "GBM")
        long = rnd.random() < 0.05
        if long:
            ar.update(ls=[], lf=sim.NOF, paths=min(ar["paths"], 3), dt=[fl(rnd.choice([1 / 252, 1 / 365]))])
        ar.update(steps=rnd.randint(100, 600) if long else rnd.randint(7, 40), omit=False, inc=True, x0c="plain" if len(ar["x0"]) == 1 else "np", cols=[])
        if rnd.random() < 0.15:
            ar["x0k"], ar["dt"], ar["ls"], ar["lf"] = "none", [], [], sim.NOF
        yield dict(p=p, a=ar, f=rnd.choice([0.0, 0.1, 0.5, 1.0, 2.5, round(rnd.uniform(0, 3), 6)]), ind=rnd.choice(list(IND)))


def execute(case):
    from quantfinlib.sim import QuasiRandom
    base = sim.model(case["p"])
    a = case["a"]
    fn = IND[case["ind"]]
    if a["x0k"] == "none":
        a = dict(a, x0k="value", x0=[0.0], dt=[fl(1 / 252)])   # the defaults of a model that is not geometric
        if case["p"]["kind"] == "GBM":
            a["x0"] = [5.0]
    b = np.asarray(sim.call_sample(base, dict(a, ls=[], lf=sim.NOF)))
    b = b.reshape(b.shape[0], -1)
    q = QuasiRandom(tech_ind_func=fn, f_signal_vol=case["f"], base_model=base)
    call = case["a"] if not (case["a"]["x0k"] == "none" and case["p"]["kind"] == "GBM") else a
    r = rec.outcome(lambda: sim.call_sample(q, call))
    out = []
    if r[0] == "ok":
        v = np.asarray(r[1])
        out = [fls(c) for c in v.reshape(v.shape[0], -1).T]
    d = len(case["p"]["p1"])
    return dict(r="ok" if r[0] == "ok" else r[1], base=[fls(c) for c in b.T], ind=[fls(fn(b[:-1, c].copy())) for c in range(b.shape[1])],
                out=out, f=fl(case["f"]), dt=a["dt"][0], vol=fls(np.tile(case["p"]["vol"], a["paths"])),
                **{"in": dict(kind=case["p"]["kind"], ind=case["ind"], msg=r[-1] if r[0] != "ok" else "")})


if __name__ == "__main__":
    rec.main(generate, execute)
