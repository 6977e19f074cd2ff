CONSTANTS SPANS <- Quick
INIT Init
NEXT Next
INVARIANTS RoundTrip NextDay Order Doy Overflow Seasons Emit
CHECK_DEADLOCK FALSE
