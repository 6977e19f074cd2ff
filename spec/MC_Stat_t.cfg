CONSTANTS N = 6
 SampleOf = 200
INIT Init
NEXT Next
INVARIANTS Corr Line Chunks PMono Diff Accepts Emit
CHECK_DEADLOCK FALSE
