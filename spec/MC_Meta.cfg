CONSTANTS MaxObj = 4
 MaxSteps = 5
 Careless = FALSE
 SampleOf = 400
SPECIFICATION Spec
INVARIANTS Carried Owned OneValue Laws Names Emit
CHECK_DEADLOCK FALSE
