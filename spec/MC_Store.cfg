CONSTANTS NA = 2
 NV = 2
 Tms = {}
INIT Init
NEXT Next
INVARIANTS Identity Choosing Raw Emit
CHECK_DEADLOCK FALSE
