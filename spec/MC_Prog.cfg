CONSTANTS MaxDepth = 4
 MaxSteps = 8
 Careless = FALSE
 SampleOf = 60
SPECIFICATION Spec
INVARIANTS Confined Shares Ends Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
