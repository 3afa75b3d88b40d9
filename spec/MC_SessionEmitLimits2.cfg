\* MC_Session
SPECIFICATION Spec
CONSTANTS
  MaxPats = 3
  Catalogue = "literal"
  Modes = {"block"}
  LimitSet = "tight"
  Emit = TRUE
CONSTANT Args <- Itself
INVARIANTS TypeOk AcceptedOk BlameOk CauseOk ExtOk KeysOk ReportsOk MinWidthOk HandedOk SmallWriteOk DbOk WholeOk EmitOk
PROPERTIES Frozen Shrinks Appends
CHECK_DEADLOCK FALSE
