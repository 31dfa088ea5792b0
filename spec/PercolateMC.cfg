CONSTANTS One <- MCOne
SPECIFICATION MCSpec
INVARIANTS Ledger NoDoubleCount FreeRange RejectedTakeNothing Ranked ClaimedOut OneCentre
PROPERTIES Grows
CHECK_DEADLOCK FALSE
