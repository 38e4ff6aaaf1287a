SPECIFICATION TraceSpec
INVARIANT Report
CONSTRAINT Open
CHECK_DEADLOCK FALSE
