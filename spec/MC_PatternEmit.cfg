\* MC_Pattern
SPECIFICATION Spec
CONSTANTS
  Alphabet = {40, 41, 124, 97}
  MaxLen = 6
  Bases = {0}
  Emit = TRUE
INVARIANTS FailureOk AcceptOk SkimOk TreeOk StackOk EmitOk
CHECK_DEADLOCK FALSE
