#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N]: decide one property on /repo's working tree."""
import argparse, importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "families")]
from vkit import Check, MachineryError
FAMILY = {}
for fam, ids in {
    "splits": "C01 C02 C03 C04",
    "sim": "C05 C06 C07 C08 C09 C10 C11",
    "features": "C12 C13 C14 C15 C16 C17 C18 C19",
    "distance": "C20 C21 C22 C23",
    "cluster": "C24 C25",
    "covmath": "C26 C27",
    "misc": "C28 C29 C30 C31 C32",
}.items():
    for i in ids.split():
        FAMILY[i] = fam


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    ck = Check(a.prop, a.tier, a.seed)
    try:
        importlib.import_module(FAMILY[a.prop]).run(ck)
        return ck.finish()
    except MachineryError as e:
        print("MACHINERY-ERROR property=%s %s" % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        import shutil
        shutil.rmtree(ck.work, ignore_errors=True)


sys.exit(main())
