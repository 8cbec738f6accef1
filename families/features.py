"""C12-C19: features."""
import os

ALL = ["rolling_mean", "rolling_max", "rolling_min", "rolling_mom", "ewm_mean", "ewm_mom", "average_true_range", "rsi", "ewm_rsi",
       "macd", "get_kyle_lambda", "get_amihud_lambda", "get_vpin"]


def run(ck):
    q = ck.tier == "quick"
    if ck.prop == "C15":
        return bands(ck, q)
    beh = os.path.join(ck.work, "feat.beh")
    for feats, n in ((ALL, 5 if q else 6), (["macd_signal"], 4)):
        part = beh + str(n)
        ck.tlc("FeatMC", """SPECIFICATION Spec
CONSTANTS MaxN = %d
 Levels = {1,2,4}
 Windows = {1,2,3}
 Feats = {%s}
INVARIANTS Undefinedness Bounds RsiExtremes OnePerBar
PROPERTY Causal
CHECK_DEADLOCK FALSE
""" % (n, ",".join('"%s"' % f for f in feats)), emit=part)
        with open(beh, "a") as f:
            f.write(open(part).read())
    ck.validate("FeatTrace", ck.record("features", beh))
    if ck.prop in ("C12", "C13"):
        bands(ck, q)


def bands(ck, q):
    beh = os.path.join(ck.work, "bands.beh")
    ck.tlc("BandsMC", """SPECIFICATION Spec
CONSTANTS MaxCalls = %d
 Kinds = {"bollinger", "ewm", "keltner", "donchian", "generic"}
INVARIANTS Ordered Centred Inside CallOrder
CHECK_DEADLOCK FALSE
""" % (3 if q else 4), emit=beh)
    ck.validate("BandsTrace", ck.record("bands", beh))
