SPECIFICATION MCSpec
INVARIANTS Bracket
PROPERTIES Ends
CHECK_DEADLOCK FALSE
