CONSTANTS Most = 2
 Ops = 1
 SampleOf = 40
INIT Init
NEXT Next
INVARIANTS Sound Kept2 Stable Emit
CHECK_DEADLOCK FALSE
