SPECIFICATION GSpec
CONSTANTS
  Accts = {"A"}
  Targets = {"A/0"}
  Amounts = {1}
  MaxChains = 3
  MaxSeals = 2
  Progs = {"w1", "log1"}
  Fork = FALSE
  Acts = {"addbal", "call", "mine", "seal", "copy", "s.snap", "s.revert"}
  Depth = 4
CHECK_DEADLOCK FALSE
