CONSTANTS CALS = {"std", "365", "360"}
 N = 4
 NP = 6
 OMITS = {1, 59, 60, 61, 366}
INIT Init
NEXT Next
INVARIANTS Restores Lags Removal Emit
CHECK_DEADLOCK FALSE
