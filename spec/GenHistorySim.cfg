SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0"}
  Amounts = {1}
  MaxChains = 5
  MaxSeals = 6
  Progs = {"w1", "w2", "log1", "ret1"}
  Fork = FALSE
  Acts = {"addbal", "call", "mine", "seal", "rcall", "rbal", "view"}
  Depth = 14
CHECK_DEADLOCK FALSE
