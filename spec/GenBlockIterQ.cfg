SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Sizes = {1, 70}
  Kinds = {"rpc", "transport", "null", "form"}
CHECK_DEADLOCK FALSE
