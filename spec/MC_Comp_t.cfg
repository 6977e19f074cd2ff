CONSTANTS N = 6
 LMAX = 5
 OMAX = 4
INIT Init
NEXT Next
INVARIANTS Emit Counts Centre Own Flat Identity
CHECK_DEADLOCK FALSE
