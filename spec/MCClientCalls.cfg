SPECIFICATION MSpec
CONSTANTS
  Emit = FALSE
INVARIANTS One NoFalseData Designated
CHECK_DEADLOCK FALSE
