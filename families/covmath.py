"""C26-C27: covariance matrices."""
import os


def run(ck):
    q = ck.tier == "quick"
    if ck.prop == "C26":
        beh = os.path.join(ck.work, "blocks.beh")
        ck.tlc("CovMC", """SPECIFICATION Spec
CONSTANTS Dims = {1,2,3}
 Stdv = {1,2,5}
 MaxBlock = %d
 MaxBlocks = 3
 MaxEig = 3
INVARIANTS Symmetric UnitDiag Inverse BlockSums FullSum FullOrder FullKept
PROPERTY RoundTrip
CHECK_DEADLOCK FALSE
""" % (2 if q else 4), emit=beh)
        ck.validate("CovTrace", ck.record("covmath", beh))
    else:
        ck.tlc("DenoiseMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 MaxEig = 3
 Grid = 3
 LL = {0,1,2}
INVARIANTS Decreasing KeepsSum KeepsSignal OneNoise FirstBest Separated
PROPERTY Finishes
CHECK_DEADLOCK FALSE
""" % (3 if q else 4))
        ck.validate("DenoiseTrace", ck.record("covmath"))
