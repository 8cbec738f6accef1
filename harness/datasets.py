"""Dataset sessions and contents."""
import csv, gzip, hashlib, os, tempfile

import numpy as np
import pandas as pd

import rec

FILES = {"vix": "vix_ohlc.csv.gz", "treasury": "daily_treasury_rates.csv.gz", "equity": "multi_index_close.csv.gz"}
CHUNK = 300


def loader(d):
    import quantfinlib.datasets as D
    return {"vix": D.load_vix, "treasury": D.load_treasury_rates, "equity": D.load_equity_indices}[d]


def rows(d):
    p = os.path.join(os.environ["VERIF_REPO_ROOT"], "quantfinlib", "datasets", "resources", FILES[d])
    with gzip.open(p, "rt", encoding="utf-8", newline="") as f:
        return list(csv.reader(f))


def digest(df):
    h = hashlib.sha256()
    for x in (repr(list(df.columns)), repr(df.index.name), repr([str(t) for t in df.dtypes])):
        h.update(x.encode())
    h.update(df.index.asi8.tobytes() if isinstance(df.index, pd.DatetimeIndex) else repr(list(df.index)).encode())
    try:
        h.update(np.ascontiguousarray(df.to_numpy(dtype=float)).tobytes())
    except Exception:
        h.update(repr(df.to_numpy().tolist()).encode())
    return h.hexdigest()[:24]


def generate(a, behs, rnd):
    rnd.shuffle(behs)
    for b in behs[:160 if not a.thorough else 3000]:
        yield dict(kind="session", h=b["h"], s=rnd.randrange(1 << 30))
    for d in FILES:
        yield dict(kind="shape", d=d)
        n = len(rows(d)) - 1
        for lo in range(0, n, CHUNK):
            yield dict(kind="rows", d=d, lo=lo)


CACHE = {}


def execute(case):
    if case["kind"] == "session":
        g = np.random.default_rng(case["s"])
        cwd = os.getcwd()
        out = dict(kind="session", ev=[], ref={d: "none" for d in FILES})
        frames = []
        try:
            for d in set(s["d"] for s in case["h"] if s["op"] == "load"):
                rec.outcome(lambda: out["ref"].__setitem__(d, digest(loader(d)())))
            for s in case["h"]:
                r = "ok"
                if s["op"] == "load":
                    z = rec.outcome(loader(s["d"]))
                    if z[0] == "ok":
                        frames.append(z[1])
                    else:
                        r = z[1]
                elif s["op"] == "chdir":
                    os.chdir(tempfile.gettempdir())
                elif s["h"] <= len(frames):
                    df = frames[s["h"] - 1]
                    k = int(g.integers(0, 8))
                    if k == 0 and len(df):
                        df.iloc[int(g.integers(0, len(df))), 0] = -1.0
                    elif k == 1:
                        df.columns = ["x%d" % i for i in range(df.shape[1])]
                    elif k == 2 and df.shape[1] > 1:
                        df.drop(columns=df.columns[0], inplace=True)
                    elif k == 3:
                        df["new"] = 1.0
                    elif k == 4:
                        df.index.name = "changed"
                    elif k == 5 and len(df) > 3:
                        df.drop(index=df.index[:2], inplace=True)
                    elif k == 6:
                        df.fillna(0.0, inplace=True)
                        df *= 2
                    else:
                        v = df.values
                        if v.flags.writeable:
                            v[:] = 7.0
                out["ev"].append(dict(op=s["op"], d=s["d"], h=s["h"], r=r, dg=[digest(f) for f in frames]))
        finally:
            os.chdir(cwd)
        return out
    d = case["d"]
    raw = rows(d)
    z = rec.outcome(loader(d))
    if case["kind"] == "shape":
        out = dict(kind="shape", d=d, r="ok", filerows=len(raw) - 1, filecols=raw[0][1:])
        if z[0] != "ok":
            return dict(out, r=z[1])
        df = z[1]
        return dict(out, rows=len(df), cols=[str(c) for c in df.columns], index=str(df.index.name), dates=isinstance(df.index, pd.DatetimeIndex) and df.index.tz is None,
                    increasing=bool(df.index.is_monotonic_increasing and df.index.is_unique), numeric=all(pd.api.types.is_float_dtype(t) for t in df.dtypes))
    out = dict(kind="rows", d=d, tdates=[r[0] for r in raw[1:][case["lo"]:case["lo"] + CHUNK]], text=[r[1:] for r in raw[1:][case["lo"]:case["lo"] + CHUNK]], vdates=[], vals=[])
    if z[0] == "ok":
        part = z[1].iloc[case["lo"]:case["lo"] + CHUNK]
        out.update(vdates=[pd.Timestamp(t).isoformat()[:10] if pd.Timestamp(t).time().isoformat() == "00:00:00" else str(t) for t in part.index], vals=rec.mat(part.to_numpy(dtype=float)))
    return out


if __name__ == "__main__":
    rec.main(generate, execute)
