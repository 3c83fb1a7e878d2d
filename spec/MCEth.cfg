SPECIFICATION MSpec
CONSTANTS
  W = 32
  A = 1
  Nobody = "0x00"
  Emit = FALSE
  Part = "keys"
INVARIANTS Exact Opened Works
CHECK_DEADLOCK FALSE
