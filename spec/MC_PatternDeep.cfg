\* MC_Pattern
SPECIFICATION Spec
CONSTANTS
  Alphabet = {40, 41, 124, 97}
  MaxLen = 9
  Bases = {0, 6}
  Emit = FALSE
INVARIANTS FailureOk AcceptOk SkimOk TreeOk TraversesOk StackOk EmitOk
CHECK_DEADLOCK FALSE
