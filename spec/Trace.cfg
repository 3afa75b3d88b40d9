SPECIFICATION TraceSpec
VIEW Position
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
