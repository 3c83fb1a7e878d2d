SPECIFICATION TSpec
CONSTANTS
  Keys = {1}
  Vals = {0}
POSTCONDITION Report
CHECK_DEADLOCK FALSE
