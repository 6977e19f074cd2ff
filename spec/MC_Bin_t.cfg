CONSTANTS CALS = {"std", "365", "360"}
 N = 3
 XS = {0, 3, -1}
 NP = 13
INIT Init
NEXT Next
INVARIANTS Once Pieces Stretch Finer MidInside Emit
CHECK_DEADLOCK FALSE
