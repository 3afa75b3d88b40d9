\* BitField
SPECIFICATION Spec
CONSTANTS
  NW = 2
  W = 2
  NReg = 2
  UpperFirst = 1
  UpperLast = 1
  CaseBit = 2
INVARIANTS QueriesOk TablesAgree WalkOk MaskOk
PROPERTIES OneOk WholeOk RangeOk BinaryOk NotOk
CHECK_DEADLOCK FALSE
