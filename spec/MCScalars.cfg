SPECIFICATION MSpec
CONSTANTS
  N = 4
  Emit = FALSE
  Size <- Sizes
INVARIANTS BothWays Canonical Again Bounded NoJunk
CHECK_DEADLOCK FALSE
