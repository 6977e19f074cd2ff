CONSTANTS N0 = 3
Depth = 2
INIT Init
NEXT Next
INVARIANTS Composed Labelled
CHECK_DEADLOCK FALSE
