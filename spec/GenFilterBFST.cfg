SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0"}
  Amounts = {0}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"log1", "log2"}
  Fork = FALSE
  Acts = {"call", "mine", "seal", "newf", "poll", "unf"}
  Depth = 4
CHECK_DEADLOCK FALSE
