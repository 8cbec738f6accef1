#!/usr/bin/env python3
"""catch.py [ID...]: which planted bugs do the checks catch?  Runs the check of the property of each bug on a scratch copy with the bug."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="catch-")
    r = os.path.join(tmp, "repo")
    try:
        subprocess.run(["cp", "-a", "/repo", r])
        a = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=r, capture_output=True, text=True)
        if a.returncode:
            return i, meta["property"], "DOES NOT APPLY " + a.stderr[:200]
        x = subprocess.run([sys.executable, "run.py", meta["property"]], cwd=HERE, env=dict(os.environ, VERIF_DEV_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
        why = [l.strip() for l in x.stdout.splitlines() if "violated:" in l or "MACHINERY" in l]
        return i, meta["property"], {0: "MISSED", 1: "caught"}.get(x.returncode, "rc %d" % x.returncode) + " " + "; ".join(why)[:170]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
with cf.ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
