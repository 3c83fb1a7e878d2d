SPECIFICATION Spec
CONSTANTS
  NCalls = 2
  MaxConns = 2
  MaxResp = 3
  MaxDialFails = 1
  SharedReader = TRUE
INVARIANTS ResultsAllowed OneCurrent PendingSent
PROPERTIES Refines NoHang
CHECK_DEADLOCK FALSE
