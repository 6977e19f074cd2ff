CONSTANTS Shares = {"v", "ax"}
 MaxObj = 3
 MaxSteps = 5
 SampleOf = 150
SPECIFICATION Spec
INVARIANT Emit
PROPERTY Framed
CHECK_DEADLOCK FALSE
