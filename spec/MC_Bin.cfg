CONSTANTS CALS = {"std", "365", "360"}
 N = 3
 XS = {3}
 NP = 7
INIT Init
NEXT Next
INVARIANTS Once Pieces Stretch Finer MidInside Emit
CHECK_DEADLOCK FALSE
