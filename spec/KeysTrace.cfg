SPECIFICATION TSpec
CONSTANTS
  Order <- N256
  HalfOrder <- Half256
POSTCONDITION Report
CHECK_DEADLOCK FALSE
