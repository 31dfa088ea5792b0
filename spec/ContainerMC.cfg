CONSTANTS MaxOps = 4 MaxRows = 4
SPECIFICATION Spec
INVARIANTS RowsKept FileKept
CHECK_DEADLOCK FALSE
