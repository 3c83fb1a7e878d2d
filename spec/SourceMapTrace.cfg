SPECIFICATION TSpec
CONSTANT None <- Absent
POSTCONDITION Report
CHECK_DEADLOCK FALSE
