\* MC_Isolation
SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  MaxCompiles = 2
  Emit = TRUE
  Shared = FALSE
CONSTANT Calls <- SomeSchedules
INVARIANTS OwnArguments OneOutcome Halfway EmitOk
CHECK_DEADLOCK FALSE
