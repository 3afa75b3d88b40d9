\* MC_Pattern
SPECIFICATION Spec
CONSTANTS
  Alphabet = {40, 41, 124, 97, 42, 233}
  MaxLen = 5
  Bases = {0, 6}
  Emit = FALSE
INVARIANTS FailureOk AcceptOk SkimOk TreeOk TraversesOk OnlyItOk StackOk EmitOk
CHECK_DEADLOCK FALSE
