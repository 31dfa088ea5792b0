SPECIFICATION TSpec
INVARIANTS Mutex OwnerHolds
CHECK_DEADLOCK FALSE
