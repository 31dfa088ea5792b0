SPECIFICATION MCSpec
INVARIANTS Conservation Accepted Exact UniqueWhenFinished
PROPERTIES Frozen
CHECK_DEADLOCK FALSE
