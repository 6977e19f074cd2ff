CONSTANTS MaxObj = 5
 MaxSteps = 6
 Careless = FALSE
 SampleOf = 400
SPECIFICATION Spec
VIEW V
INVARIANTS Carried Owned OneValue Laws Names Emit
CHECK_DEADLOCK FALSE
