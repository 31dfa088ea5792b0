SPECIFICATION MCSpec
INVARIANTS ExactlyOnce OnlyGood Nested RankTotal OrderFree
CHECK_DEADLOCK FALSE
