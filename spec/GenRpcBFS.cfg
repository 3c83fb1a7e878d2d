SPECIFICATION GSpec
CONSTANTS
  MaxCalls = 3
  Depth = 5
  Kinds = {"result", "error"}
CHECK_DEADLOCK FALSE
