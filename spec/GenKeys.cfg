SPECIFICATION MSpec
CONSTANTS
  Order = 1
  HalfOrder = 1
  Emit = TRUE
CHECK_DEADLOCK FALSE
