SPECIFICATION MSpec
CONSTANTS
  OpKinds = {"create", "cancel", "wait", "drain"}
  FailKinds = {"rpc", "transport", "null", "form"}
  Signers = {"none", "ok", "wrong", "fail"}
  MaxPolls = 1
  Emit = TRUE
CHECK_DEADLOCK FALSE
