SPECIFICATION TSpec
CONSTANTS
  W = 32
  A = 20
POSTCONDITION Report
CHECK_DEADLOCK FALSE
