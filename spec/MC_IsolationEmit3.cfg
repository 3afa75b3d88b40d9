\* MC_Isolation
SPECIFICATION MCSpec
CONSTANTS
  Threads = {1, 2, 3}
  MaxCompiles = 3
  Emit = TRUE
  Shared = FALSE
CONSTANT Calls <- TinyCalls
INVARIANTS OwnArguments OneOutcome Halfway EmitOk
CHECK_DEADLOCK FALSE
