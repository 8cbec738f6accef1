"""Histories of calls on one WalkForward object."""
import warnings

import numpy as np
import pandas as pd

import rec
from kfold import UNITS, container, data

INT_KINDS = ["none", "int", "int32", "uint8", "uint64", "series_u16", "series", "series_shuffled", "series_str", "series_date"]
DT_KINDS = ["dti", "series_dt", "series_dt_shuffled", "dti_tz"]


def sweep_ops(d, k=1):
    """Open sweep k on data d and run it to the end (the recorder stops at the end)."""
    return [dict(o="open", k=k, d=d), dict(o="run", k=k)]


def mk(s, ops, kind, freq, rnd):
    return dict(s=s, ops=ops, kind=kind, freq=freq, x=rnd.choice(["np", "df"]), y=rnd.choice(["none", "np", "series"]))


def scaled(case_s, ops, rnd, allow_none):
    """Choose a container; date-times scale the integer groups."""
    kinds = [x for x in INT_KINDS if x != "none" or allow_none] + DT_KINDS
    kind = rnd.choice(kinds)
    if kind in ("uint8", "uint64", "series_u16"):
        if any(v < 0 for o in ops if o["o"] == "open" for v in o["d"]):
            kind = "int"
    s, freq = dict(case_s), None
    if kind in DT_KINDS:
        freq = rnd.choice(list(UNITS))
        s["u"] = UNITS[freq]
        ops = [dict(o, d=[v * s["u"] for v in o["d"]]) if o["o"] == "open" else o for o in ops]
    return mk(s, ops, kind, freq, rnd)


def rand_data(rnd, n):
    style = rnd.choice(["uniq", "dup", "dupheavy", "gaps", "weekend", "neg", "sparse"])
    g, v = [], rnd.choice([0, rnd.randint(-30, 30)])
    for i in range(n):
        g.append(v)
        if style in ("uniq", "neg"):
            v += 1
        elif style == "dup":
            v += rnd.choice([0, 0, 1, 1, 2])
        elif style == "dupheavy":
            v += 1 if rnd.random() < 0.3 else 0
        elif style == "weekend":
            v += 3 if v % 7 == 4 else 1
        elif style == "sparse":
            v += rnd.choice([1, 1, 2, 9, 20])
        else:
            v += rnd.choice([1, 1, 1, 4, 0])
    return g


def generate(a, behs, rnd):
    limit = 6000 if not a.thorough else 120000
    mixed = [b for b in behs if sum(o["o"] == "open" for o in b["hist"]) > 1]
    behs = [b for b in behs if sum(o["o"] == "open" for o in b["hist"]) <= 1]
    if len(mixed) > limit:
        mixed = rnd.sample(mixed, limit)
    for b in behs + mixed:
        ops = []
        for o in b["hist"]:
            ops.append(dict(o=o["o"], k=o["k"], d=o["d"]) if o["o"] == "open" else dict(o=o["o"], k=o["k"]))
            if rnd.random() < 0.35:
                ops.append(dict(o="query"))
        ops.append(dict(o="query"))
        yield scaled(b["s"], ops, rnd, False)
    for i in range(2000 if not a.thorough else 25000):
        n = rnd.choice([rnd.randint(1, 6), rnd.randint(3, 20), rnd.randint(10, 60 if not a.thorough else 250)])
        if i % 250 == 0:
            n = rnd.choice([130, 257, 300])
        d = rand_data(rnd, n)
        span = d[-1] - d[0] + 1
        tw = rnd.choice([rnd.randint(0, 3), rnd.randint(1, 8), rnd.randint(1, max(1, span // 2)), rnd.randint(1, span + 1)])
        sw = rnd.choice([rnd.randint(0, 3), rnd.randint(1, 8), rnd.randint(1, max(1, span // 3))])
        emb = rnd.choice([0, 0, 1, 2, rnd.randint(0, max(1, tw))])
        s = dict(tw=tw, sw=sw, emb=emb, u=1, rolling=rnd.random() < 0.5)
        mode = rnd.random()
        if mode < 0.6:
            ops = [dict(o="query")] * (rnd.random() < 0.2) + sweep_ops(d) + [dict(o="query")]
            if rnd.random() < 0.2:
                ops += sweep_ops(rand_data(rnd, rnd.randint(2, 25)), 2) + [dict(o="query")]
        else:
            ops, m = [], 0
            for _ in range(rnd.randint(5, 30)):
                p = rnd.random()
                if m == 0 or p < 0.1:
                    m += 1
                    ops.append(dict(o="open", k=m, d=d if rnd.random() < 0.5 else rand_data(rnd, rnd.randint(1, 15))))
                elif p < 0.2:
                    ops.append(dict(o="query"))
                elif p < 0.3:
                    ops.append(dict(o="run", k=rnd.randint(1, m)))
                elif p < 0.36:
                    ops.append(dict(o="close", k=rnd.randint(1, m)))
                else:
                    ops.append(dict(o="next", k=rnd.randint(1, m)))
            ops.append(dict(o="query"))
        isrange = all(o["d"] == list(range(len(o["d"]))) for o in ops if o["o"] == "open")
        yield scaled(s, ops, rnd, isrange)


def execute(case):
    from quantfinlib.train_test_split import WalkForward
    s = case["s"]
    npi = np.int64 if len(case["ops"]) % 3 == 0 else int
    cv = WalkForward(n_embargo=npi(s["emb"]), train_window=npi(s["tw"]), test_window=npi(s["sw"]),
                     split_type="rolling" if s["rolling"] else "expanding", freq=case["freq"])
    its, size, log = {}, {}, []

    def nxt(k):
        e = dict(o="next", k=k, tr=[], te=[])
        try:
            tr, te = next(its[k])
            e.update(r="yield", tr=[int(i) for i in tr], te=[int(i) for i in te])
        except StopIteration:
            e["r"] = "stop"
        except rec.CaseTimeout:
            raise
        except Exception as x:
            e["r"] = rec.exc_class(x)
        log.append(e)
        return e["r"]

    for o in case["ops"]:
        k = o.get("k")
        if o["o"] == "open":
            n = len(o["d"])
            X, Y = data(n, case["x"], case["y"], np.random.RandomState(n))
            G = container(o["d"], case["kind"], s["u"], n)
            its[k] = iter(cv.split(X, Y, G) if n % 2 else cv.split(X=X, y=Y, groups=G))
            size[k] = n
            log.append(dict(o="open", k=k, d=o["d"]))
        elif o["o"] == "next":
            nxt(k)
        elif o["o"] == "run":
            for _ in range(size[k] + 3):
                if nxt(k) != "yield":
                    break
        elif o["o"] == "close":
            its[k].close()
            log.append(dict(o="close", k=k))
        else:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                v = int(cv.get_n_splits())
            log.append(dict(o="query", v=v, w=len(w) > 0))
    return {"s": s, "ops": log, "in": {x: case[x] for x in ("kind", "freq", "x", "y")}}


if __name__ == "__main__":
    rec.main(generate, execute)
