"""C24-C25: clustering."""
import os


def run(ck):
    q = ck.tier == "quick"
    beh = os.path.join(ck.work, "cluster.beh")
    if ck.prop == "C24":
        ck.tlc("ClusterMC", """SPECIFICATION Spec
CONSTANTS Sizes = {2,3,4}
 Levels = {1,2,3}
 Methods = {"single", "complete", "average", "weighted"}
INVARIANTS Tiling Shrinking Monotone Meaning
PROPERTY Nested
CHECK_DEADLOCK FALSE
""", emit=beh)
        ck.validate("ClusterTrace", ck.record("cluster", beh))
    else:
        ck.tlc("GapMC", """SPECIFICATION Spec
CONSTANTS MaxLen = %d
 Vals = {0,1,2,3}
 Ge <- IGe
 Sub <- ISub
INVARIANTS InRange Smallest
PROPERTY Chosen
CHECK_DEADLOCK FALSE
""" % (4 if q else 5))
        ck.validate("MetricTrace", ck.record("cluster"))
