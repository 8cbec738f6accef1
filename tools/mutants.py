#!/usr/bin/env python3
"""Mutation experiments: mutants.py FILE, where FILE lists mutants as JSON lines {"file","old","new","props":[...],"n":occurrence}.
Each mutant is made in a scratch copy of /repo (never in /repo) and the checks of its properties are run on the copy."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    d = tempfile.mkdtemp(prefix="mut-")
    r = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        p = os.path.join(r, "quantfinlib", m["file"])
        s = open(p, newline="").read()
        old, new = m["old"], m["new"]
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if old not in s:
            return m, "NOT-FOUND", ""
        k = m.get("n", 0)
        parts = s.split(old)
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w", newline="").write(s)
        out = []
        for q in m["props"]:
            e = dict(os.environ, VERIF_DEV_REPO=r)
            x = subprocess.run([sys.executable, "run.py", q], cwd=HERE, env=e, capture_output=True, text=True)
            why = [l.strip() for l in x.stdout.splitlines() if "violated:" in l or "MACHINERY" in l]
            out.append("%s=%s %s" % (q, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(x.returncode, x.returncode), "; ".join(why)[:160]))
        return m, "", out
    finally:
        shutil.rmtree(d, ignore_errors=True)


ms = [json.loads(l) for l in open(sys.argv[1]) if l.strip()]
with cf.ThreadPoolExecutor(4) as ex:
    for m, err, out in ex.map(one, ms):
        print(m["file"], "|", m["old"][:50].replace("\n", "~"), "->", m["new"][:50].replace("\n", "~"), "|", err, *out, sep=" ", flush=True)
