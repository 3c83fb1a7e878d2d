SPECIFICATION MSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0", "X", "B"}
  Amounts = {0, 1, 9}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"none", "sub", "subok", "deep", "make", "maker", "makesub", "die", "dier"}
  Fork = FALSE
  Acts = {"addbal", "subbal", "call", "send", "create", "mine"}
  Depth = 4
VIEW View
CONSTRAINT Bound
INVARIANTS RemoteFixed TypeOK LedgerInv FilterExact EtherKept
PROPERTIES Isolated SealedFixed ReadOnly FailedAtomic Restored OneAccount
CHECK_DEADLOCK FALSE
