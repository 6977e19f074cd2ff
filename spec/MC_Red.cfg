INIT Init
NEXT Next
CONSTANTS
 Shapes <- QShapes
 NData <- QN
INVARIANTS Correct PartitionInv
CHECK_DEADLOCK FALSE
