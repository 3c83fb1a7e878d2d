SPECIFICATION MSpec
CONSTANTS
  Short = 55
  N = 0
  L = 0
  Emit = TRUE
CHECK_DEADLOCK FALSE
