SPECIFICATION MSpec
CONSTANTS
  Order = 1
  HalfOrder = 1
  Emit = FALSE
INVARIANTS Right Wrong Named Unnamed
CHECK_DEADLOCK FALSE
