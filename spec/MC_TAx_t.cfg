CONSTANTS ORIGINS <- OD
 NUMS <- ND
 UNITS = {"hours", "days"}
 CALS = {"std", "365", "360"}
INIT Init
NEXT Next
INVARIANTS Denotes ByInstant WrittenBack Coarser MapId Sym Times Emit
CHECK_DEADLOCK FALSE
