SPECIFICATION MSpec
CONSTANTS
  Depth = 5
  Emit = FALSE
  Deep = FALSE
INVARIANTS NeverOthers Sound OneEach Latest
PROPERTY Frugal
CHECK_DEADLOCK FALSE
