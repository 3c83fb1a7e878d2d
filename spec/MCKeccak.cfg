INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 64
  Pieces = {0, 1, 8, 71, 72, 73}
  Limit = 150
INVARIANTS Same
