CONSTANTS N = 4
 VMAX = 2
INIT Init
NEXT Next
INVARIANTS Emit Direction AtSource Lines Pass Symmetric Bounded
CHECK_DEADLOCK FALSE
