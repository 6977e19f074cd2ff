INIT Init
NEXT Next
INVARIANTS Conserved Sorted Back
CHECK_DEADLOCK FALSE
