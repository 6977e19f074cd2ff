CONSTANTS MaxN = 4
 SampleOf = 12
SPECIFICATION Spec
INVARIANTS Complete Turned Upright Older Hidden Framed Ladders Coloured Rounded Texts Emit
CHECK_DEADLOCK FALSE
