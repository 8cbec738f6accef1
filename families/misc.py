"""C28-C32: date frequencies, purity, logger, validation, datasets."""
import os


def run(ck):
    q = ck.tier == "quick"
    beh = os.path.join(ck.work, "misc.beh")
    if ck.prop == "C28":
        ck.tlc("FreqMC", """SPECIFICATION Spec
CONSTANTS FirstYear = %d
 LastYear = %d
 MaxLen = 19
INVARIANTS Recognised TooShort NeverNone
CHECK_DEADLOCK FALSE
""" % ((1999, 2001) if q else (1995, 2009)), emit=beh)
        ck.validate("FreqTrace", ck.record("freq", beh))
    elif ck.prop == "C30":
        ck.tlc("LoggerMC", """SPECIFICATION Spec
CONSTANTS Paths = {"a", "b"}
 Levels = {10, 20, 30}
 MaxLen = %d
INVARIANTS Quiet FileInConsole Once OneFile
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
""" % (3 if q else 4), emit=beh)
        ck.validate("LoggerTrace", ck.record("logger", beh))
    elif ck.prop == "C32":
        ck.tlc("DatasetsMC", """SPECIFICATION Spec
CONSTANTS Names = {"vix", "treasury", "equity"}
 MaxLen = %d
 MaxFrames = 3
PROPERTIES Fresh Isolated
CHECK_DEADLOCK FALSE
""" % (4 if q else 5), emit=beh)
        ck.validate("DatasetsTrace", ck.record("datasets", beh))
    elif ck.prop == "C31":
        ck.tlc("ValidateMC", """SPECIFICATION Spec
INVARIANT Exactly
PROPERTY Ends
CHECK_DEADLOCK FALSE
""", emit=beh)
        ck.validate("ValidateTrace", ck.record("validate", beh))
    elif ck.prop == "C29":
        ck.tlc("SessionMC", """SPECIFICATION Spec
CONSTANT MaxLen = %d
INVARIANT Determined
PROPERTIES HeapMine AmbientKept Same LiveMine
CHECK_DEADLOCK FALSE
""" % (5 if q else 7), emit=beh)
        ck.validate("SessionTrace", ck.record("purity", beh))
