SPECIFICATION MSpec
CONSTANTS
  None <- Absent
  Emit = TRUE
  Steps = 3
  Entries = 2
CHECK_DEADLOCK FALSE
