CONSTANTS N = 5
 SampleOf = 40
INIT Init
NEXT Next
INVARIANTS Corr Line Chunks PMono Diff Accepts Emit
CHECK_DEADLOCK FALSE
