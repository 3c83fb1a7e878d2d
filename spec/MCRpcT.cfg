SPECIFICATION Spec
CONSTANTS
  NCalls = 3
  MaxConns = 2
  MaxResp = 2
  MaxDialFails = 1
  SharedReader = FALSE
INVARIANTS ResultsAllowed OneCurrent PendingSent
PROPERTIES Refines NoHang Closes
CHECK_DEADLOCK FALSE
