"""C20-C23: distances."""
import os


def run(ck):
    q = ck.tier == "quick"
    beh = os.path.join(ck.work, "dist.beh")
    if ck.prop == "C20":
        ck.tlc("CorrMC", """SPECIFICATION Spec
CONSTANTS Grid0 = {0,6,12,17,24}
 Diag = {12, 11}
 Sizes = {1,2,3}
INVARIANTS Within ZeroDiagonal Sym Ends
CHECK_DEADLOCK FALSE
""", emit=beh)
        ck.validate("CorrTrace", ck.record("distance", beh))
    elif ck.prop == "C21":
        ck.tlc("InfoMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 Levels = {0,1,2}
 BinCounts = {1,2,%s}
INVARIANTS Margins Positive AtMostOne Histograms SelfZero
CHECK_DEADLOCK FALSE
""" % ((3, "3") if q else (4, "3,4")), emit=beh)
        ck.validate("InfoTrace", ck.record("distance", beh))
    elif ck.prop == "C22":
        ck.tlc("DivergeMC", """SPECIFICATION Spec
CONSTANTS Ent = {0,1,2,%s}
INVARIANTS NonNegative ZeroOnEqual ZeroOnlyOnEqual Scaled Congruent
CHECK_DEADLOCK FALSE
""" % ("3" if q else "3,4,7"), emit=beh)
        ck.validate("DivergeTrace", ck.record("distance", beh))
    else:
        ck.tlc("DistMatMC", """SPECIFICATION Spec
CONSTANTS Items = {"a","b","c","d"}
 Vals = {1,2}
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
""")
        ck.validate("DistTrace", ck.record("distance"))
