SPECIFICATION MCSpec
INVARIANT LastMeansAll
INVARIANT InputsThere
INVARIANT WellFormedAtStart
INVARIANT OnlyOwed
INVARIANT ExactlyOwed
INVARIANT Complete
PROPERTY Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
