CONSTANTS NPix = 5 MaxSub = 3
SPECIFICATION Spec
INVARIANTS Covered EachSubmissionKept EveryGalaxyOnce
PROPERTIES NeverReplaced
CHECK_DEADLOCK FALSE
