SPECIFICATION TSpec
CONSTANTS
  Short = 55
POSTCONDITION Report
CHECK_DEADLOCK FALSE
