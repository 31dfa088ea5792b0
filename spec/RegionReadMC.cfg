CONSTANTS NPos = 16
SPECIFICATION Spec
INVARIANTS Correct
CHECK_DEADLOCK FALSE
