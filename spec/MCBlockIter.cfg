SPECIFICATION Spec
CONSTANTS
  MaxBlocks = 5
  MaxFails = 2
  Buf = 2
INVARIANTS Nothing_lost ReqAllowed InOrder
PROPERTIES Ends Delivers Advances
CHECK_DEADLOCK FALSE
