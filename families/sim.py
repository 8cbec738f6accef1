"""C05-C11: simulation models."""
import os


def run(ck):
    q = ck.tier == "quick"
    if ck.prop == "C11":
        return quasi(ck, q)
    beh = os.path.join(ck.work, "life.beh")
    ck.tlc("SimLifeMC", """SPECIFICATION Spec
CONSTANT MaxOps = %d
INVARIANT FromLastFit
CHECK_DEADLOCK FALSE
""" % (3 if (q or ck.prop != "C10") else 3), emit=beh)
    tr = ck.record("sim", beh)
    ck.validate("SimTrace", tr)


def quasi(ck, q):
    ck.tlc("QuasiMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 Vals = {0,1,2}
INVARIANTS StartsAtX0 RunningSum Causal
CHECK_DEADLOCK FALSE
""" % (6 if q else 8))
    ck.validate("QuasiTrace", ck.record("quasi"))
