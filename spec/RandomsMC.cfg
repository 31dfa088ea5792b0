CONSTANTS Want = 4
 NBatch = 2
 Size = 3
SPECIFICATION Spec
INVARIANTS Placed NotMore WeightsAddUp
CHECK_DEADLOCK FALSE
