\* MC_Store
SPECIFICATION Spec
CONSTANTS
  MaxAdds = 3
  MaxReports = 2
INVARIANTS LeftOk AgreeOk ReportsOk WidthOk HandedOk SomOk GivenUpOk TablesOk
CHECK_DEADLOCK FALSE
