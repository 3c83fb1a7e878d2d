SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0"}
  Amounts = {0}
  MaxChains = 1
  MaxSeals = 6
  Progs = {"log1", "log2", "logr"}
  Fork = FALSE
  Acts = {"call", "mine", "seal", "newf", "poll", "unf"}
  Depth = 14
CHECK_DEADLOCK FALSE
