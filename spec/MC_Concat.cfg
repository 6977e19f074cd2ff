INIT Init
NEXT Next
INVARIANTS ReadsRight EachOnce Consecutive
CHECK_DEADLOCK FALSE
