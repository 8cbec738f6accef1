#!/usr/bin/env python3
"""original.py [ID...]: do the planted patches change only lines of the original repository? (git blame of the removed lines; neighbours for pure insertions)"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "7b2335a"


def check(patch, repo="/repo"):
    bad, removed, f, cur = [], 0, None, 0
    blame = {}
    for l in patch.decode("utf8", "replace").split("\n"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            out = subprocess.run(["git", "blame", "-s", "--abbrev=6", "%s^..HEAD" % BASE if False else "HEAD", "--", f], cwd=repo, capture_output=True, text=True, errors="replace").stdout.split("\n")
            own = set(subprocess.run(["git", "rev-list", "--abbrev-commit", "--abbrev=7", BASE + "..HEAD"], cwd=repo, capture_output=True, text=True).stdout.split())
            blame = {i + 1: x.split(" ")[0].lstrip("^")[:7] for i, x in enumerate(out)}
        elif l.startswith("@@"):
            cur = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if blame.get(cur) in own:
                bad.append("%s:%d %s" % (f, cur, l[:100]))
            cur += 1
        elif l.startswith(" "):
            cur += 1
    return removed, bad


if __name__ == "__main__":
    for i in sys.argv[1:] or sorted(os.listdir(HERE + "/seeded")):
        n, bad = check(open("%s/seeded/%s/patch.diff" % (HERE, i), "rb").read())
        print(i, "removed", n, "OWN LINES: " + "; ".join(bad) if bad else ("ok" if n else "PURE INSERTION"))
