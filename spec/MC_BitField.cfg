\* BitField
SPECIFICATION Spec
CONSTANTS
  NW = 4
  W = 3
  NReg = 1
  UpperFirst = 1
  UpperLast = 2
  CaseBit = 4
INVARIANTS QueriesOk TablesAgree WalkOk MaskOk
PROPERTIES OneOk WholeOk RangeOk BinaryOk NotOk
CHECK_DEADLOCK FALSE
