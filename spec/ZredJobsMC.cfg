CONSTANTS NJ = 3 Crashes = 2 LookLocksFirst = FALSE
SPECIFICATION Spec
INVARIANTS NeverEarly TableWhenDone
PROPERTY Eventually
CHECK_DEADLOCK FALSE
