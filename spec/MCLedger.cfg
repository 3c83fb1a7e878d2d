SPECIFICATION MSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0"}
  Amounts = {0, 9}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"log2", "logr", "sub"}
  Fork = FALSE
  Acts = {"mine", "rsend", "seal"}
  Depth = 6
VIEW View
CONSTRAINT Bound
INVARIANTS RemoteFixed TypeOK LedgerInv FilterExact EtherKept
PROPERTIES Isolated SealedFixed ReadOnly FailedAtomic Restored OneAccount
CHECK_DEADLOCK FALSE
