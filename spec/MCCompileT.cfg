SPECIFICATION MSpec
CONSTANTS
  Depth = 6
  Emit = FALSE
  Deep = FALSE
INVARIANTS NeverOthers Sound OneEach Latest
PROPERTY Frugal
CHECK_DEADLOCK FALSE
