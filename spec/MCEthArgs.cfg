SPECIFICATION MSpec
CONSTANTS
  W = 32
  A = 1
  Nobody = "0x00"
  Emit = FALSE
  Part = "args"
INVARIANTS Exactly
CHECK_DEADLOCK FALSE
