\* MC_Graph
SPECIFICATION Spec
CONSTANTS
  MaxVertices = 5
  Reports = {1}
  MaxEdges = 5
  Emit = FALSE
INVARIANTS SpecialOk ReportsOk FreshOk
PROPERTIES Grows
CHECK_DEADLOCK FALSE
