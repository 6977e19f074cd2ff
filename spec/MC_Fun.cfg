INIT Init
NEXT Next
INVARIANTS Commutes Axes OrderFree
CHECK_DEADLOCK FALSE
