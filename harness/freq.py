"""Frequencies of date indexes."""
import numpy as np
import pandas as pd

import rec

ALIAS = {"ME": "ME", "MS": "MS", "QE": "QE", "QS": "QS", "YE": "YE", "YS": "YS", "D": "D", "B": "B"}
WD = ["MON", "TUE", "WED", "THU", "FRI", "SAT", "SUN"]
ZONES = [None, None, "UTC", "Europe/Brussels", "America/New_York", "Asia/Tokyo", "Australia/Sydney"]


def generate(a, behs, rnd):
    for b in behs:
        yield dict(kind="reg", k=b["k"], a=b["a"], s=b["s"], n=b["n"] - rnd.choice([0, 0, 1, 2, 5, 9]), r=rnd.randrange(1 << 30))
    for _ in range(2500 if not a.thorough else 40000):
        yield dict(kind="reg", k=rnd.choice(["D", "B", "W", "ME", "MS", "QE", "QS", "YE", "YS"]), a=rnd.randrange(7), s=rnd.randrange(-20000, 25000),
                   n=rnd.choice([0, 1, 2, 3, 4, 5, 7, 12, 20, 40, 60]), r=rnd.randrange(1 << 30))
    for _ in range(2500 if not a.thorough else 40000):
        yield dict(kind="irr", r=rnd.randrange(1 << 30))
    for _ in range(40 if not a.thorough else 400):
        yield dict(kind="reg", k=rnd.choice(["D", "B", "W", "ME", "MS", "QE", "QS", "YE", "YS"]), a=rnd.randrange(7), s=rnd.randrange(-20000, 5000),
                   n=rnd.choice([100, 120, 150, 200]), r=rnd.randrange(1 << 30))
    for y in range(1970, 2040):                        # around each end of February
        for o in (-2, -1, 0, 1):
            yield dict(kind="feb", y=y, o=o, r=rnd.randrange(1 << 30))
    for _ in range(60):
        yield dict(kind="dst", r=rnd.randrange(1 << 30))
    for i in range(9):
        yield dict(kind="other", i=i)
    for c in ["D", "B", "W", "M", "ME", "MS", "Q", "QE", "QS", "Y", "YE", "YS", "", "d", "b", "A", "H", "h", "min", "W-SUN", "2D", "BME", "x", None, "none", "y", "S"]:
        yield dict(kind="dur", code=c)


def execute(case):
    from quantfinlib._datatypes.timeseries import time_series_freq, time_series_freq_to_duration
    none = lambda v: "none" if v is None else str(v)
    if case["kind"] == "dur":
        v = time_series_freq_to_duration(case["code"])
        return dict(kind="dur", code="none" if case["code"] is None else case["code"], o="none" if v is None else repr(float(v)), d=[])
    if case["kind"] == "other":
        obj = [[1, 2, 3], pd.Series([1.0, 2, 3]), pd.DataFrame({"a": [1, 2, 3]}), np.array(pd.date_range("2020", periods=9)), None, "D",
               pd.Series(1.0, index=["2020-01-01", "2020-01-02", "2020-01-03"]), pd.date_range("2020", periods=9).to_period("M"),
               pd.DataFrame({"d": pd.date_range("2020", periods=9)})][case["i"]]
        z = rec.outcome(lambda: time_series_freq(obj))
        return dict(kind="other", o=[none(z[1]) if z[0] == "ok" else "raise"], d=[])
    g = np.random.default_rng(case["r"])
    day0 = np.datetime64("1970-01-01")
    tz, bare = None, True
    if case["kind"] in ("reg", "dst"):
        if case["kind"] == "dst":
            k, a, s, n, tz = str(g.choice(["D", "B", "W"])), int(g.integers(0, 7)), int(g.integers(10000, 20000)), 300, str(g.choice(ZONES[3:]))
            n = 420 if k != "W" else 110
        else:
            k, a, s, n = case["k"], case["a"], case["s"], max(0, case["n"])
            tz = ZONES[g.integers(0, len(ZONES))]
        freq = "W-" + WD[a] if k == "W" else ALIAS[k]
        idx = pd.date_range(day0 + np.timedelta64(s, "D"), periods=n, freq=freq)
        d = [int(v) for v in (idx.values.astype("datetime64[D]") - day0).astype(int)]
        bare = g.random() < 0.5 or len(d) < 5              # pandas itself reads short indexes that carry a frequency differently
        if g.random() < 0.25 and len(d) > 3:           # a few dates missing
            drop = set(int(v) for v in g.integers(0, len(d), size=int(g.integers(1, 4))))
            d = [v for i, v in enumerate(d) if i not in drop]
            bare = True
    elif case["kind"] == "feb":
        d = [int((np.datetime64("%d-03-01" % (case["y"] + i)) - day0).astype(int)) + case["o"] for i in range(int(g.integers(3, 7)))]
    else:
        n = int(g.integers(3, 30))
        step = [[1, 3], [1, 3, 2, 4], [7, 7, 7, 14], [7, 8], [1, 1, 1, 2], [28, 30, 31], [90, 91, 92], [365, 366], [2], [5], list(range(1, 40))][g.integers(0, 11)]
        d = list(np.cumsum(np.concatenate([[int(g.integers(0, 20000))], g.choice(step, size=n - 1)])))
        d = [int(v) for v in d]
        if g.random() < 0.3:                           # snap some to month ends
            q = pd.DatetimeIndex(day0 + np.array(d).astype("timedelta64[D]")) + pd.offsets.MonthEnd(0)
            d = sorted(set(int(v) for v in (q.values.astype("datetime64[D]") - day0).astype(int)))
        if g.random() < 0.25:                          # all, or most, a few days next to the start or end of a month, quarter or year
            o = [pd.offsets.MonthEnd, pd.offsets.MonthBegin, pd.offsets.QuarterEnd, pd.offsets.YearEnd, pd.offsets.YearBegin][g.integers(0, 5)]
            step = {"M": 31, "Q": 92, "Y": 366}[o.__name__[0]]
            k = int(g.choice([-2, -1, 1, 2]))
            q = pd.DatetimeIndex(day0 + np.array([d[0] + i * step for i in range(n)]).astype("timedelta64[D]")) + o()
            e = (q.values.astype("datetime64[D]") - day0).astype(int)
            d = [int(v) + (k if g.random() < 0.9 else 0) for v in e]
            if g.random() < 0.3:                       # every February
                d = [int(v) + (k if q[i].month == 2 else 0) for i, v in enumerate(e)]
        u = g.random()
        if u < 0.1:                                    # out of order
            d = d[::-1] if u < 0.05 else [d[i] for i in g.permutation(len(d))]
        elif u < 0.2:                                  # a date twice
            i = int(g.integers(0, len(d)))
            d = d[:i] + [d[i]] * int(g.integers(1, 3)) + d[i:]
    if bare:
        idx = pd.DatetimeIndex([day0 + np.timedelta64(v, "D") for v in d])
        if g.random() < 0.3:
            idx = idx + pd.Timedelta(minutes=int(g.choice([960, 30, 720, 1439, 90])))
        if g.random() < 0.3:
            idx = idx.as_unit(str(g.choice(["s", "ms", "us"])))
    if tz:
        idx = idx.tz_localize(tz, ambiguous=True, nonexistent="shift_forward") if len(idx) else idx
    objs = [idx, pd.Series(g.normal(size=len(idx)), index=idx), pd.DataFrame({"a": np.arange(len(idx)), "b": 1.0}, index=idx.rename("t"))]
    o = []
    for x in objs:
        z = rec.outcome(lambda: time_series_freq(x))
        o.append(none(z[1]) if z[0] == "ok" else "raise " + z[1])
    return dict(kind="dates", d=d, o=o)


if __name__ == "__main__":
    rec.main(generate, execute)
