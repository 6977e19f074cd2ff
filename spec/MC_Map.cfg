INIT Init
NEXT Next
INVARIANTS Right
CHECK_DEADLOCK FALSE
