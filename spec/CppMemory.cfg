SPECIFICATION Spec
INVARIANT Judge
POSTCONDITION Done
CHECK_DEADLOCK FALSE
