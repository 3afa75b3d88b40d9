\* MC_Engine
SPECIFICATION Spec
CONSTANT MaxScans = 1
INVARIANTS Monotone EngineOk ModeOk ScanOk
CHECK_DEADLOCK FALSE
