SPECIFICATION MSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0"}
  Amounts = {0}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"log1", "log2", "logr"}
  Fork = FALSE
  Acts = {"call", "mine", "seal", "newf", "poll", "unf"}
  Depth = 5
VIEW View
CONSTRAINT Bound
INVARIANTS RemoteFixed TypeOK LedgerInv FilterExact EtherKept
PROPERTIES Isolated SealedFixed ReadOnly FailedAtomic Restored OneAccount
CHECK_DEADLOCK FALSE
