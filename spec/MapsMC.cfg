CONSTANTS NPos = 16
SPECIFICATION Spec
INVARIANTS SameWhereSeen ElsewhereSameOrOutside AreasAddUp ConversionKeeps
CHECK_DEADLOCK FALSE
