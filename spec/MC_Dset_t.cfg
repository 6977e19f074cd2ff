CONSTANTS Most = 2
 Ops = 2
 SampleOf = 1000
INIT Init
NEXT Next
INVARIANTS Sound Kept2 Stable Emit
CHECK_DEADLOCK FALSE
