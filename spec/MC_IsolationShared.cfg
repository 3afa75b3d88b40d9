\* MC_Isolation
SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2}
  MaxCompiles = 2
  Emit = FALSE
  Shared = TRUE
CONSTANT Calls <- SomeCalls
INVARIANTS OwnArguments OneOutcome
CHECK_DEADLOCK FALSE
