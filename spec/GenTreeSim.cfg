SPECIFICATION GSpec
CONSTANTS
  Keys = {1, 3, 5, 6, 8}
  Vals = {0, 1, 2, 3}
  MaxTrees = 5
  MaxSnaps = 5
  Depth = 40
CHECK_DEADLOCK FALSE
