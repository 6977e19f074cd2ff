CONSTANTS Dims = 3
 Longest = 4
 Limit = 40
INIT Init
NEXT Next
INVARIANTS Once All Sound Whole Emit
CHECK_DEADLOCK FALSE
