SPECIFICATION MSpec
CONSTANTS
  None <- Absent
  Emit = FALSE
  Steps = 3
  Entries = 2
INVARIANTS Numbered Stable Within
CHECK_DEADLOCK FALSE
