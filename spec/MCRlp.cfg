SPECIFICATION MSpec
CONSTANTS
  Short = 3
  N = 3
  L = 3
  Emit = FALSE
INVARIANTS Readable Minimal
CHECK_DEADLOCK FALSE
