\* MC_Literal
SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 97, 49}
  MaxLen = 2
INVARIANTS OrderOk StoredOk MixedOk
CHECK_DEADLOCK FALSE
