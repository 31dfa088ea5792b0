CONSTANTS N = 3 Crashes = 2 Locked = TRUE
SPECIFICATION Spec
INVARIANTS AckedKept NoDuplicate TableExact Complete ErrorOnlyAfterDeath
CHECK_DEADLOCK FALSE
