SPECIFICATION TraceSpec
CONSTRAINT Reached
INVARIANT TypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
