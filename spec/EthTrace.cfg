SPECIFICATION TSpec
CONSTANTS
  W = 32
  A = 20
  Nobody <- NoBody
POSTCONDITION Report
CHECK_DEADLOCK FALSE
