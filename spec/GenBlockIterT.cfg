SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Sizes = {1, 3, 70}
  Kinds = {"rpc", "transport", "null", "form"}
CHECK_DEADLOCK FALSE
