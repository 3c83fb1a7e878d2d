SPECIFICATION MSpec
CONSTANTS
  N = 4
  Emit = TRUE
  Size <- Sizes
CHECK_DEADLOCK FALSE
