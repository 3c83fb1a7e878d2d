SPECIFICATION TSpec
CONSTANTS
  Curs <- Table
  RateDigits = 8
POSTCONDITION Report
CHECK_DEADLOCK FALSE
