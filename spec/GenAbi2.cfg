SPECIFICATION Spec
CONSTANTS
  N = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
