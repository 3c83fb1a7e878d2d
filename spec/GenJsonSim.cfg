SPECIFICATION GSpec
CONSTANTS
  Accts = {"A"}
  Targets = {"A/0"}
  Amounts = {1}
  MaxChains = 5
  MaxSeals = 6
  Progs = {"w1", "log1"}
  Fork = FALSE
  Acts = {"addbal", "mine", "seal", "save", "load", "s.setst"}
  Depth = 14
CHECK_DEADLOCK FALSE
