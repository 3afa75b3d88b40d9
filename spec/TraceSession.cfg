CONSTANT Args <- ArgsAt
SPECIFICATION TraceSpec
VIEW Position
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
