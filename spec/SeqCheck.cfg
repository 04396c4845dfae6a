SPECIFICATION Spec
INVARIANT Check
POSTCONDITION Report
CHECK_DEADLOCK FALSE
