"""Recorder kit (runs in the library's own environment): execute cases on the real code and log what it did."""
import argparse, json, multiprocessing as mp, os, random, resource, signal, sys, traceback, warnings

import numpy as np
import pandas as pd


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def fl(x):
    """One float as text, exactly."""
    return repr(float(x))


def fls(xs):
    return [repr(float(x)) for x in np.asarray(xs, dtype=float).ravel()]


def mat(xs):
    return [[repr(float(x)) for x in row] for row in np.asarray(xs, dtype=float)]


def outcome(fn):
    """Call fn and classify the outcome: ('ok', value) or ('raise', exception type name, message)."""
    try:
        return ("ok", fn())
    except CaseTimeout:
        raise
    except Exception as e:
        return ("raise", exc_class(e), str(e)[:200])


def exc_class(e):
    for c in (ValueError, TypeError, AssertionError, KeyError, IndexError, NotImplementedError, FileNotFoundError):
        if isinstance(e, c):
            return c.__name__
    return type(e).__name__


CASE_SECONDS = 30.0
_EXEC = None


def _one(case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rec = _EXEC(case)
    except CaseTimeout:
        rec = {"crash": "no result within %gs" % CASE_SECONDS, "case": case}
    except MemoryError:
        rec = {"crash": "out of memory", "case": case}
    except Exception:
        rec = {"crash": traceback.format_exc()[-1500:], "case": case}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    try:
        return json.dumps(rec)
    except Exception:
        return json.dumps({"crash": "unserialisable record " + traceback.format_exc()[-800:], "case": repr(case)[:500]})


def _init():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.stdout = open(os.devnull, "w")


def main(generate, execute, procs=8):
    global _EXEC
    ap = argparse.ArgumentParser()
    ap.add_argument("--out"); ap.add_argument("--seed", type=int); ap.add_argument("--tier")
    ap.add_argument("--prop"); ap.add_argument("--beh"); ap.add_argument("--set", action="append", default=[])
    a = ap.parse_args()
    a.opts = dict(s.split("=", 1) for s in a.set)
    a.thorough = a.tier == "thorough"
    import quantfinlib
    assert os.path.realpath(quantfinlib.__file__).startswith(os.path.realpath(os.environ["VERIF_REPO_ROOT"]) + "/"), quantfinlib.__file__
    behs = [json.loads(l) for l in open(a.beh)] if a.beh else []
    rnd = random.Random(a.seed * 1000003 + 17)
    try:
        cases = list(generate(a, behs, rnd))
    except Exception:
        print("HARNESS-BUG"); traceback.print_exc(); sys.exit(3)
    _EXEC = execute
    with open(a.out, "w") as f:
        if procs <= 1:
            for c in cases:
                f.write(_one(c) + "\n")
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(procs, initializer=_init) as pool:
                for line in pool.imap(_one, cases, chunksize=max(1, min(64, len(cases) // (procs * 4) or 1))):
                    f.write(line + "\n")
