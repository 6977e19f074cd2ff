CONSTANTS Shares = {"v", "ax"}
 MaxObj = 3
 MaxSteps = 4
 SampleOf = 30
SPECIFICATION Spec
INVARIANT Emit
PROPERTY Framed
CHECK_DEADLOCK FALSE
