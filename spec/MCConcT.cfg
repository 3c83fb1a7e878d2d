SPECIFICATION MSpec
CONSTANTS
  Threads = {1, 2, 3}
  PerThread = 2
  Locked = TRUE
  Split = FALSE
INVARIANTS Conserved Recorded Linked
PROPERTY Atomic
CHECK_DEADLOCK FALSE
