SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Sizes = {0, 1, 2, 25}
  Kinds = {"rpc", "transport", "null", "form"}
CHECK_DEADLOCK FALSE
