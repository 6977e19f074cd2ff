CONSTANTS N = 4
 VMAX = 1
 STEPS = {1, 2, 3}
 KLEN = 4
INIT Init
NEXT Next
INVARIANTS EmitInit ExactSlope ExactCurv Between Inverse Trapz Const Kept
CHECK_DEADLOCK FALSE
