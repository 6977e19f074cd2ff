INIT Init
NEXT Next
INVARIANT Fits
INVARIANT Done
INVARIANT Alive
CONSTANTS
  Lens = {1, 2, 3, 4, 5}
  MaxReq = 12
CHECK_DEADLOCK FALSE
