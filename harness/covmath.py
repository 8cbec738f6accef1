"""Covariance conversions and denoising."""
import numpy as np
import pandas as pd

import rec
from rec import fl, fls, mat


def rand_cov(g, n, t=None):
    """A sample covariance; scales from bond-like (1e-5) to index-like (1e2)."""
    f = int(g.integers(1, 4))
    x = g.normal(size=(t or int(g.integers(n + 2, 6 * n + 10)), n))
    x = x + g.normal(size=(len(x), f)) @ (g.normal(size=(f, n)) * g.choice([0.0, 0.5, 2.0]))
    x = x * 10 ** g.uniform(-4.5, 2, size=n)
    x = x - x.mean(0)
    c = x.T @ x / len(x)
    return (c + c.T) / 2


def to_cor(c):
    s = np.sqrt(np.diag(c))
    r = c / np.outer(s, s)
    r = (r + r.T) / 2
    np.fill_diagonal(r, 1.0)
    return r


def eig(m):
    w, v = np.linalg.eigh(m)
    return w[::-1], v[:, ::-1].T


def laid(g, m):
    """The same matrix in another memory layout."""
    k = int(g.integers(0, 6))
    if k == 0:
        return np.asfortranarray(m)
    if k == 1:
        w = np.zeros((len(m), 2 * len(m)), m.dtype)
        w[:, ::2] = m
        return w[:, ::2]
    if k == 2:
        w = m.copy()
        w.flags.writeable = False
        return w
    if k == 3:
        return m[::-1, ::-1].copy()[::-1, ::-1]
    return m.copy()


def gen26(a, behs, rnd):
    for b in behs:
        yield dict(kind="block", s=rnd.randrange(1 << 30), b=b)
    for i in range(1200 if not a.thorough else 20000):
        yield dict(kind=["cov", "eig", "eig", "block", "rcov", "rcor"][i % 6], s=rnd.randrange(1 << 30), b=None)


def ex26(case):
    from quantfinlib.math import cov as L
    g = np.random.default_rng(case["s"])
    kind = case["kind"]
    n = int(g.integers(1, 9))
    if g.random() < 0.08:
        n = int(g.integers(9, 27))
    if kind == "cov":
        z = g.integers(0, 5)
        c = rand_cov(g, n)
        psd = True
        kw = {}
        floor = 1e-6
        if z == 0:                                     # zero and tiny variances
            i = int(g.integers(0, n))
            c[i, :] = c[:, i] = 0.0
            c[i, i] = float(g.choice([0.0, 1e-14, 1e-18]))
        elif z == 1:                                   # correlations beyond one
            c = c * np.where(np.eye(n) > 0, 1.0, 3.0)
            psd = False
        elif z == 2:
            floor = float(g.choice([1e-3, 0.5, 1.0]))
            kw = dict(cov_reg=floor)
        elif z == 3:
            c = np.round(c / np.max(np.abs(c)) * 50)
            c = c.astype(int) if np.all(np.diag(c) > 0) else c
        keep = c.copy()
        c = laid(g, c)
        r = rec.outcome(lambda: L._cov_to_cor(c, **kw))
        out = dict(kind=kind, cov=mat(keep), floor=fl(floor), psd=bool(psd and z not in (2, 0)), r="ok", std=[], cor=[], back=[])
        if z == 3:
            out["psd"] = bool(np.min(np.linalg.eigvalsh(keep)) >= 0)
        if r[0] != "ok":
            return dict(out, r=r[1])
        cor, std = r[1]
        b = rec.outcome(lambda: L._cor_to_cov(np.array(cor), np.array(std)))
        if b[0] != "ok":
            return dict(out, r=b[1])
        return dict(out, std=fls(std), cor=mat(cor), back=mat(b[1]))
    if kind == "eig":
        z = g.integers(0, 4)
        p = to_cor(rand_cov(g, n))
        if z == 0:                                     # repeated eigenvalues
            p = np.full((n, n), float(g.choice([0.0, 0.3, 0.9])))
            np.fill_diagonal(p, 1.0)
        elif z == 1 and n > 2:                         # rank deficient
            p = to_cor(rand_cov(g, n, t=2))
        elif z == 2 and n > 3 and g.random() < 0.5:    # groups of equally correlated items
            z = np.sort(g.integers(0, 3, size=n))
            p = np.where(z[:, None] == z[None], float(g.choice([0.5, 0.2, 0.8])), 0.0)
            np.fill_diagonal(p, 1.0)
        if g.random() < 0.05:
            p = np.eye(n, dtype=int) if g.random() < 0.5 else np.ones((n, n), dtype=int)
        k = int(g.choice([0, 1, 2, n, n + 2, max(1, n - 1), max(1, n // 2)]))
        sort = bool(g.random() < 0.7)
        kw = dict(sort=sort) if not sort or g.random() < 0.5 else {}
        if k:
            kw["k"] = k
        w, v = eig(p)
        out = dict(kind=kind, cor=mat(p), wit=fls(w), witv=mat(v), k=k, sort=sort, r="ok", s=[], v=[], back=[], cs=[], cv=[])

        def go():
            s, e = L._cor_to_eig(laid(g, p), **kw)
            b = L._eig_to_cor(s.copy(), e.copy())
            c = L._eig_complete(s.copy(), e.copy())
            return s, e, b, c
        r = rec.outcome(go)
        if r[0] != "ok":
            return dict(out, r=r[1])
        s, e, b, (cs, cv) = r[1]
        return dict(out, s=fls(s), v=mat(np.asarray(e).T), back=mat(b), cs=fls(cs), cv=mat(np.asarray(cv).T))
    if kind == "block":
        if case["b"]:
            sizes, cors = case["b"]["s"], [c[0] / c[1] for c in case["b"]["c"]]
        else:
            m = int(g.integers(0, 5))
            sizes, cors = [int(v) for v in g.integers(1 if g.random() < 0.7 else 0, 6 if g.random() < 0.9 else 14, size=m)], [float(v) for v in np.round(g.uniform(-0.5, 1, size=m), 3)]
        bad = bool(not case["b"] and g.random() < 0.15)
        if bad:
            cors = cors + [0.2] if g.random() < 0.5 or not cors else cors[:-1]
        arr = g.random() < 0.5 and len(sizes) > 0
        kw = {}
        if not bad and sizes and g.random() < 0.1:     # the documented default of the correlations
            sizes, cors = [int(v) for v in g.integers(1, 6, size=5)], [0.5, 0.2, 0.3, 0.5, 0.3]
        else:
            kw = dict(block_cors=np.array(cors) if arr else tuple(cors) if g.random() < 0.3 else list(cors))
        r = rec.outcome(lambda: L._cor_block_diagonal(block_sizes=np.array(sizes) if arr else list(sizes), **kw) if g.random() < 0.5 else
                        L._cor_block_diagonal(np.array(sizes) if arr else list(sizes), *kw.values()))
        return dict(kind=kind, sizes=sizes, cors=fls(cors), bad=bad, r="ok" if r[0] == "ok" else r[1], cor=mat(r[1]) if r[0] == "ok" else [])
    f = L._random_cov if kind == "rcov" else L._random_cor
    sd = int(g.integers(0, 1000))
    if g.random() < 0.1:
        n = 3
        f0, f = f, lambda dim: f0()

    def draw():
        np.random.seed(sd)
        return np.asarray(f(dim=n) if g.random() < 0.7 else f(n))
    r = rec.outcome(lambda: (draw(), draw()))
    if r[0] != "ok":
        return dict(kind=kind, n=n, r=r[1], cov=[], s=[], v=[], repro=False)
    w, v = eig(r[1][0])
    return dict(kind=kind, n=n, r="ok", cov=mat(r[1][0]), s=fls(w), v=mat(v), repro=bool(np.array_equal(*r[1])))


def gen27(a, behs, rnd):
    for i in range(480 if not a.thorough else 4000):
        yield dict(kind=["cov", "cor", "eig", "pdf", "covk", "cork", "eigk", "pdf"][i % 8], s=rnd.randrange(1 << 30), edge=i % 16 == 2, big=i % 24 > 21 - (i % 5 == 0))
    for i in range(40):
        yield dict(kind="reject", s=rnd.randrange(1 << 30), i=i)


def ex27(case):
    from quantfinlib.math import cov as L
    g = np.random.default_rng(case["s"])
    kind = case["kind"]
    n = int(g.integers(2, 9))
    if kind == "reject":
        m = to_cor(rand_cov(g, n))
        kw = dict(k=int(g.integers(1, n))) if g.random() < 0.5 else {}
        what, want, f = [("a list as correlation", "TypeError", lambda: L._cor_denoise(m.tolist(), 50, **kw)), ("a frame as correlation", "TypeError", lambda: L._cor_denoise(pd.DataFrame(m), 50, **kw)),
                         ("a list as covariance", "TypeError", lambda: L._cov_denoise(m.tolist(), 50, **kw)), ("a frame as covariance", "TypeError", lambda: L._cov_denoise(pd.DataFrame(m), 50, **kw)),
                         ("a vector as correlation", "ValueError", lambda: L._cor_denoise(m[0].copy(), 50, **kw)), ("a rectangle as correlation", "ValueError", lambda: L._cor_denoise(m[:-1], 50, **kw)),
                         ("a stack as correlation", "ValueError", lambda: L._cor_denoise(np.stack([m, m]), 50, **kw)),
                         ("a variance that is not positive", "ValueError", lambda: L._marchenko_pastur_pdf(float(g.choice([0.0, -1.0, -1e-12])), 50, n, np.ones(n)))][case["i"] % 8]
        r = rec.outcome(f)
        return dict(kind=kind, what=what, want=want, s=[], k=1, t=1, n=n, r="ok" if r[0] == "ok" else r[1])
    if case.get("big"):
        n = int(g.integers(9, 25))
    t = int(g.choice([n, n + 1, 2 * n, 5 * n, 100, 100000, max(1, n - 1), max(1, n // 2), 1]))
    if kind == "pdf":
        var = float(10 ** g.uniform(-2, 1))
        lo, hi = L._marcenko_pastur_support(var, t, n)
        x = np.concatenate([g.uniform(0, 1.3 * hi, size=8), [0.0, 2 * hi]])
        if g.random() < 0.3:
            x = np.arange(0, 9)
        elif g.random() < 0.3:
            x = x[::2]
        r = rec.outcome(lambda: L._marchenko_pastur_pdf(var, t, n, x))
        return dict(kind="pdf", s=[], k=1, t=t, n=n, var=fl(var), lo=fl(lo), hi=fl(hi), x=fls(x), r="ok" if r[0] == "ok" else r[1], p=fls(r[1]) if r[0] == "ok" else [])
    given = kind.endswith("k")
    kind = kind[:3]
    k = int(g.integers(1, n + 1)) if given else 0
    kw = dict(k=k) if given else {}
    out = dict(kind=kind, t=t, k=k, var="nan", edge="nan", outk=-1, o=[], m=[], v=[], om=[], r="ok", same=True)
    c = rand_cov(g, n, t=max(t, 2) if g.random() < 0.6 else None)
    if n > 3 and g.random() < 0.3:                           # strong factor
        b = g.normal(size=n)
        c = c + np.outer(b, b) * 3 * np.outer(np.sqrt(np.diag(c)), np.sqrt(np.diag(c)))
    if np.min(np.diag(c)) <= 1e-11:
        c = c + np.eye(n)
    if kind == "eig":
        s = np.sort(g.uniform(0.01, 3, size=n))[::-1].copy() if g.random() < 0.5 else np.maximum(eig(to_cor(c))[0], 1e-9)
        if not given and case.get("edge"):                   # look for a spectrum with a value next to the edge
            near = []
            for _ in range(25):
                c1 = np.sort(g.uniform(0.05, 2.5, size=n))[::-1].copy()
                z = rec.outcome(lambda: L._eigen_values_denoise(c1.copy(), t))
                if z[0] == "ok":
                    near.append((np.min(np.abs(c1[:t] / z[1][1]["max_noise"] - 1)), c1))
            s = min(near, key=lambda v: v[0])[1] if near else s
        elif g.random() < 0.15:
            s = np.sort(g.integers(1, 6, size=n))[::-1].copy()
        keep = s.copy()
        if g.random() < 0.2:
            s = np.repeat(s, 2)[::2]
        elif g.random() < 0.2:
            s.flags.writeable = False
        out["s"] = fls(s)
        r = rec.outcome(lambda: L._eigen_values_denoise(s, t, **kw))
        if r[0] != "ok":
            return dict(out, r=r[1])
        o, info = r[1]
        out.update(o=fls(o), same=bool(np.array_equal(keep, s)))
    else:
        cor = to_cor(c)
        m = c if kind == "cov" else cor
        # the decomposed matrix is the one the specification derives
        if kind == "cov":
            sd = np.sqrt(np.diag(c))
            w, v = eig(np.clip(c / np.outer(sd, sd), -1, 1))
        else:
            w, v = eig(cor)
        if g.random() < 0.05 and kind == "cor":
            m = np.eye(n, dtype=int)
            w, v = eig(m)
        keep = m.copy()
        m = laid(g, m)
        out.update(m=mat(m), s=fls(w), v=mat(v))
        r = rec.outcome(lambda: (L._cov_denoise if kind == "cov" else L._cor_denoise)(m, t, **kw))
        if r[0] != "ok":
            return dict(out, r=r[1])
        o, info = r[1][0], r[1][-1]
        out.update(om=mat(o), same=bool(np.array_equal(keep, m)))
    out["outk"] = int(info["k"])
    if not given:
        out.update(var=fl(info["var"]), edge=fl(info["max_noise"]))
    if bool(info["fitted"]) == given:
        out["outk"] = -2
    return out


def generate(a, behs, rnd):
    for c in (gen26 if a.prop == "C26" else gen27)(a, behs, rnd):
        yield dict(c, prop=a.prop)


def execute(case):
    return (ex26 if case["prop"] == "C26" else ex27)(case)


if __name__ == "__main__":
    rec.main(generate, execute)
