CONSTANTS One <- TOne
SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
