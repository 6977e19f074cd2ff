CONSTANTS YEARS <- Y2
UNITS <- AllUnits
INIT Init
NEXT Next
INVARIANTS Onto Forward NoneMissed
CHECK_DEADLOCK FALSE
