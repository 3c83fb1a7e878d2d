SPECIFICATION Spec
CONSTANTS
  NCalls = 2
  MaxConns = 2
  MaxResp = 3
  MaxDialFails = 1
  SharedReader = FALSE
INVARIANTS ResultsAllowed OneCurrent PendingSent
PROPERTIES Refines NoHang Closes
CHECK_DEADLOCK FALSE
