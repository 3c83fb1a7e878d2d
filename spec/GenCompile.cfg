SPECIFICATION MSpec
CONSTANTS
  Depth = 8
  Emit = TRUE
  Deep = TRUE
CHECK_DEADLOCK FALSE
