SPECIFICATION MSpec
CONSTANTS
  None <- Absent
  Emit = FALSE
  Steps = 2
  Entries = 3
INVARIANTS Numbered Stable Within
CHECK_DEADLOCK FALSE
