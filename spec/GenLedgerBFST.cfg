SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0"}
  Amounts = {0, 9}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"log2", "logr", "sub"}
  Fork = FALSE
  Acts = {"mine", "rsend", "seal"}
  Depth = 5
CHECK_DEADLOCK FALSE
