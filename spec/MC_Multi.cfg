CONSTANTS N = 4
 GONE = 2
 REQ = 2
 LAGS = {0, 2}
INIT Init
NEXT Next
INVARIANTS NeverAnother Decided Undivided AnyOrder Noticed Misplaced Emit
CHECK_DEADLOCK FALSE
