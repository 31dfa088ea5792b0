CONSTANTS MaxRuns = 3
SPECIFICATION Spec
INVARIANTS Complete Sound Cuts
PROPERTY Refused
CHECK_DEADLOCK FALSE
