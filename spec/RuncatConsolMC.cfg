SPECIFICATION MCSpec
INVARIANTS ExactlyInPixel Once Mems
CHECK_DEADLOCK FALSE
