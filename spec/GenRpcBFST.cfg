SPECIFICATION GSpec
CONSTANTS
  MaxCalls = 3
  Depth = 6
  Kinds = {"result", "error"}
CHECK_DEADLOCK FALSE
