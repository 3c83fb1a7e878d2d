SPECIFICATION GSpec
CONSTANTS
  Accts = {"A"}
  Targets = {"A/0"}
  Amounts = {1}
  MaxChains = 2
  MaxSeals = 2
  Progs = {"w1", "log1"}
  Fork = FALSE
  Acts = {"addbal", "mine", "seal", "save", "load", "s.setst"}
  Depth = 5
CHECK_DEADLOCK FALSE
