SPECIFICATION MSpec
CONSTANTS
  N = 3
  Emit = TRUE
  Size <- Sizes
CHECK_DEADLOCK FALSE
