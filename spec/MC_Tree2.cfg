\* MC_Tree
SPECIFICATION Spec
CONSTANTS
  MaxItems = 3
  MaxChars = 2
INVARIANTS StringOk OrderOk CaselessOk
PROPERTIES Grows
CHECK_DEADLOCK FALSE
