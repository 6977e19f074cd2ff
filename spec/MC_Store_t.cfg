CONSTANTS NA = 3
 NV = 1
 Tms = {}
INIT Init
NEXT Next
INVARIANTS Identity Choosing Raw Emit
CHECK_DEADLOCK FALSE
