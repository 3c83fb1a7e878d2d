SPECIFICATION MSpec
CONSTANTS
  Short = 2
  N = 2
  L = 5
  Emit = FALSE
INVARIANTS Readable Minimal
CHECK_DEADLOCK FALSE
