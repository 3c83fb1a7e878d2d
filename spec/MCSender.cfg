SPECIFICATION MSpec
CONSTANTS
  OpKinds = {"call", "create", "constcall", "cancel", "wait", "drain"}
  FailKinds = {"rpc", "null"}
  Signers = {"none", "ok", "wrong", "fail"}
  MaxPolls = 3
  Emit = FALSE
INVARIANTS AtMostOnce Exact OnlyThen Tells
PROPERTIES NotAfterFailure
CHECK_DEADLOCK FALSE
