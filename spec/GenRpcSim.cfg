SPECIFICATION GSpec
CONSTANTS
  MaxCalls = 12
  Depth = 24
  Kinds = {"result", "error", "null", "bad"}
CHECK_DEADLOCK FALSE
