"""C01-C04: cross-validation splitters."""
import os


def run(ck):
    if ck.prop in ("C01", "C02"):
        beh = os.path.join(ck.work, "kfold.beh")
        ns, incs, folds, gaps = (6, "{0,1,2}", "{2,3,4}", "{0,1,2}") if ck.tier == "quick" else (7, "{0,1,3}", "{2,3,4,5}", "{0,1,2,4}")
        ck.tlc("KFoldMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 Incs = %s
 Folds = %s
 Gaps = %s
INVARIANTS TypeOK C01Inv C02Inv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
""" % (ns, incs, folds, gaps), emit=beh)
        tr = ck.record("kfold", beh)
        ck.validate("KFoldTrace", tr)
    else:
        cfg = """SPECIFICATION Spec
CONSTANTS MaxN = %d
 Incs = %s
 Wins = %s
 Embs = %s
 MaxSweeps = %d
 MaxOps = %d
 Mode = "%s"
INVARIANTS C03Inv C04Inv Covers Bounded
PROPERTY OnceOnly
CHECK_DEADLOCK FALSE
"""
        q = ck.tier == "quick"
        b1, b2 = os.path.join(ck.work, "wf1.beh"), os.path.join(ck.work, "wf2.beh")
        ck.tlc("WalkForwardMC", cfg % (5 if q else 6, "{0,1,3}", "{0,1,2,3}", "{0,1,2}", 1, 99, "sweep"), emit=b1)
        ck.tlc("WalkForwardMC", cfg % (3, "{1,2}", "{1,2}", "{0}" if q else "{0,1}", 2, 7 if q else 9, "mixed"), emit=b2)
        with open(b1, "a") as f:
            f.write(open(b2).read())
        tr = ck.record("walk", b1)
        ck.validate("WalkForwardTrace", tr)
