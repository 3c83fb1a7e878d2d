SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Sizes = {0, 1, 25}
  Kinds = {"rpc", "transport", "null", "form"}
CHECK_DEADLOCK FALSE
