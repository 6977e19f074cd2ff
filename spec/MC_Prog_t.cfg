CONSTANTS MaxDepth = 4
 MaxSteps = 11
 Careless = FALSE
 SampleOf = 2000
SPECIFICATION Spec
INVARIANTS Confined Shares Ends Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
