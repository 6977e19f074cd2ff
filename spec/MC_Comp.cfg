CONSTANTS N = 4
 LMAX = 3
 OMAX = 2
INIT Init
NEXT Next
INVARIANTS Emit Counts Centre Own Flat Identity
CHECK_DEADLOCK FALSE
