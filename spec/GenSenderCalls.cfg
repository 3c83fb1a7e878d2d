SPECIFICATION MSpec
CONSTANTS
  OpKinds = {"call", "create", "constcall"}
  FailKinds = {"rpc", "transport", "null", "form"}
  Signers = {"none", "ok", "wrong", "fail"}
  MaxPolls = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
