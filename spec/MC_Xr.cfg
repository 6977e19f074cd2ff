CONSTANTS Dims = 3
 Longest = 3
 Limit = 28
INIT Init
NEXT Next
INVARIANTS Once All Sound Whole Emit
CHECK_DEADLOCK FALSE
