SPECIFICATION MCSpec
INVARIANTS Complete Alone First Disjoint
PROPERTIES Prefix
CHECK_DEADLOCK FALSE
