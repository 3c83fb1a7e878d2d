SPECIFICATION MSpec
CONSTANTS
  Accts = {"A", "X", "C"}
  Targets = {"A/0", "X"}
  Amounts = {0, 1}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"w1", "ret1", "deep", "dele", "die"}
  Fork = TRUE
  Acts = {"send", "mine", "createat", "s.snap", "s.revert", "s.addbal", "s.setnonce", "s.setcode", "s.setst"}
  Depth = 4
VIEW View
CONSTRAINT Bound
INVARIANTS RemoteFixed TypeOK LedgerInv FilterExact
PROPERTIES Isolated SealedFixed ReadOnly FailedAtomic Restored OneAccount
CHECK_DEADLOCK FALSE
