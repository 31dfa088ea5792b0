CONSTANTS MaxObj = 3 MaxOps = 5
SPECIFICATION Spec
INVARIANTS Separate DefaultsKept Consistent
CHECK_DEADLOCK FALSE
