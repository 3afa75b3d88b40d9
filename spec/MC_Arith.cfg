\* MC_Arith
SPECIFICATION Spec
CONSTANTS
  Bits = 8
  Alignments = {1, 2, 4, 8, 16, 32, 64, 128}
INVARIANTS DownOk UpOk LimbOk
CHECK_DEADLOCK FALSE
