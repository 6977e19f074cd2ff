INIT Init
NEXT Next
INVARIANTS Joint Commutes Complement Idempotent
CHECK_DEADLOCK FALSE
