\* MC_Isolation
SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2, 3}
  MaxCompiles = 4
  Emit = FALSE
  Shared = FALSE
CONSTANT Calls <- SomeCalls
INVARIANTS OwnArguments OneOutcome Halfway
CHECK_DEADLOCK FALSE
