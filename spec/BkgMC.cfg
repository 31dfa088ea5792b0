SPECIFICATION MCSpec
INVARIANTS OnceEach NotTwice Kept There Newest Whole
CHECK_DEADLOCK FALSE
