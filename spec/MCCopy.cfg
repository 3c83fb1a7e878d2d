SPECIFICATION MSpec
CONSTANTS
  Accts = {"A"}
  Targets = {"A/0"}
  Amounts = {1}
  MaxChains = 3
  MaxSeals = 2
  Progs = {"w1", "log1"}
  Fork = FALSE
  Acts = {"addbal", "call", "mine", "seal", "copy", "s.snap", "s.revert"}
  Depth = 5
VIEW View
CONSTRAINT Bound
INVARIANTS RemoteFixed TypeOK LedgerInv FilterExact
PROPERTIES Isolated SealedFixed ReadOnly FailedAtomic Restored OneAccount
CHECK_DEADLOCK FALSE
