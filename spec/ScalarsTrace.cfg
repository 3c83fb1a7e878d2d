SPECIFICATION TSpec
CONSTANTS
  Size <- Sizes
POSTCONDITION Report
CHECK_DEADLOCK FALSE
