SPECIFICATION Spec
CONSTANTS
  N = 3
  Emit = TRUE
CHECK_DEADLOCK FALSE
