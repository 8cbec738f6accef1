#!/usr/bin/env python3
"""plant.py DEFS [ID...]: make planted bugs from a definition file (python: a list SEEDS of dicts id, prop, edits [(file, old, new[, n])], needs, breaks, demo).
Each is built in a scratch copy of /repo, confirmed (tests pass with it, its demonstration passes without and fails with it), and kept in /verif/seeded/<id>/."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import original
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
DEMO = '#!/bin/bash\n# exit 0: the property holds for the input of the demonstration; nonzero: it does not\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 200 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)


def one(d):
    tmp = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(tmp, "repo")
    try:
        sh(["cp", "-a", "/repo", r], "/")
        for e in d["edits"]:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 0
            p = os.path.join(r, "quantfinlib", f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            parts = s.split(old)
            if len(parts) < n + 2:
                return d["id"], "NOT-FOUND %s" % f
            s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        diff = subprocess.run(["git", "diff", "--binary"], cwd=r, capture_output=True).stdout
        if not diff:
            return d["id"], "EMPTY"
        n, own = original.check(diff)
        if own or not n:
            return d["id"], "NOT ORIGINAL LINES " + "; ".join(own)
        out = os.path.join(HERE, "seeded", d["id"])
        dd = os.path.join(tmp, "demo")
        os.makedirs(dd)
        open(os.path.join(dd, "demo.py"), "w").write(d["demo"].lstrip())
        open(os.path.join(dd, "demo.sh"), "w").write(DEMO)
        clean = os.path.join(tmp, "clean")
        sh(["cp", "-a", "/repo", clean], "/")
        a = sh(["bash", dd + "/demo.sh"], clean)
        b = sh(["bash", dd + "/demo.sh"], r)
        if a.returncode != 0 or b.returncode == 0:
            return d["id"], "DEMO clean=%d patched=%d %s" % (a.returncode, b.returncode, (a.stderr + a.stdout)[-500:] if a.returncode else "")
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--randomly-seed=0", "--randomly-dont-reorganize", "--timeout=300", "tests", "--deselect", "tests/feature/test_price_sequences.py::test_edge"], r)
        if t.returncode != 0:
            return d["id"], "TESTS " + "; ".join(l for l in t.stdout.splitlines() if l.startswith("FAILED"))[:400]
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(dd, f), out)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return d["id"], "planted; demo says: " + (b.stderr.strip().splitlines() or [""])[-1][:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


exec(open(sys.argv[1]).read())
want = sys.argv[2:]
with cf.ThreadPoolExecutor(6) as ex:
    for i, m in ex.map(one, [d for d in SEEDS if not want or d["id"] in want]):
        print(i, "|", m, flush=True)
