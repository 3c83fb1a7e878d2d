SPECIFICATION MSpec
CONSTANTS
  Emit = TRUE
CHECK_DEADLOCK FALSE
