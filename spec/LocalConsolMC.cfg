SPECIFICATION Spec
INVARIANTS MembersFollow Exact
CHECK_DEADLOCK FALSE
