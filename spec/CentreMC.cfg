SPECIFICATION MCSpec
INVARIANTS Ranked Sound MissAdds
CHECK_DEADLOCK FALSE
