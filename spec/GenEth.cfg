SPECIFICATION MSpec
CONSTANTS
  W = 32
  A = 1
  Nobody = "0x00"
  Emit = TRUE
  Part = "keys"
CHECK_DEADLOCK FALSE
