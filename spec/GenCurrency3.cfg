SPECIFICATION MSpec
CONSTANTS
  Curs <- Table
  RateDigits = 1
  N = 3
  M = 130
  Emit = TRUE
CHECK_DEADLOCK FALSE
