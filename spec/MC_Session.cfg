\* MC_Session
SPECIFICATION Spec
CONSTANTS
  MaxPats = 2
  Catalogue = "wide"
  Modes = {"block"}
  LimitSet = "roomy"
  Emit = FALSE
CONSTANT Args <- Itself
INVARIANTS TypeOk AcceptedOk BlameOk CauseOk ExtOk KeysOk ReportsOk MinWidthOk HandedOk SmallWriteOk DbOk WholeOk EmitOk
PROPERTIES Frozen Shrinks Appends
CHECK_DEADLOCK FALSE
