SPECIFICATION GSpec
CONSTANTS
  Keys = {2, 4, 7}
  Vals = {1}
  MaxTrees = 3
  MaxSnaps = 3
  Depth = 5
CHECK_DEADLOCK FALSE
