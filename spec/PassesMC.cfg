SPECIFICATION MCSpec
INVARIANTS Once Own Exact Chain
PROPERTIES Ends
CHECK_DEADLOCK FALSE
