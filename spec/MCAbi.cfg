SPECIFICATION MSpec
CONSTANTS
  W = 2
  A = 1
  N = 2
  Emit = FALSE
INVARIANTS RoundTrip Shape Stable Narrow
CHECK_DEADLOCK FALSE
