_T = "TLA+ specification model-checked with TLC; behaviours replayed into the code, recorded traces validated against the specification"
_N = ("Exhaustive for the specification within the small constants of the MC model; the code is bound to it by replaying every behaviour of that model "
      "and by validating seeded random larger runs of the real code, step by step, against the same actions. Trusts TLC, the recorder and the Java arithmetic module.")
CLAIMS = {p: (_T, _N) for p in ["C%02d" % i for i in range(1, 33)]}
NOT_CLAIMED = {}
