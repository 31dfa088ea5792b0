SPECIFICATION MCSpec
INVARIANTS Complete NoOrphan EmptyHasNoFile
PROPERTIES OncePerRun NoRecompute Completes
CHECK_DEADLOCK FALSE
