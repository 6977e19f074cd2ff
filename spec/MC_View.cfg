INIT Init
NEXT Next
INVARIANT Fits
INVARIANT Done
INVARIANT Alive
CONSTANTS
  Lens = {1, 2, 4}
  MaxReq = 5
CHECK_DEADLOCK FALSE
