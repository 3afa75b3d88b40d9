\* MC_Reports
SPECIFICATION Spec
CONSTANTS
  Ids = {"1", "2"}
  MaxOps = 5
  Limit = 3
INVARIANTS IdentityOk LimitOk KeysOk RegisterOk
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
