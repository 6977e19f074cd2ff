CONSTANTS SPANS <- Deep
INIT Init
NEXT Next
INVARIANTS RoundTrip NextDay Order Doy Overflow Seasons Emit
CHECK_DEADLOCK FALSE
