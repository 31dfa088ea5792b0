SPECIFICATION Spec
CONSTANTS
 Block = {2, 3}
 MaxTry = 2
 Rounds = 2
INVARIANTS Mutex Owned NoLitter
PROPERTY Safe
CHECK_DEADLOCK FALSE
