SPECIFICATION MCSpec
INVARIANTS MembersFirst SameRun InOrder
PROPERTIES Stable OnlyOwn Completes
CHECK_DEADLOCK FALSE
