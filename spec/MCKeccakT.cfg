INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 32
  Pieces = {0, 1, 7, 135, 136, 137, 272}
  Limit = 420
INVARIANTS Same
