SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
CONSTANTS
  Threads <- TraceThreads
  Objects <- TraceObjects
