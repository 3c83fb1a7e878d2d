SPECIFICATION GSpec
CONSTANTS
  Accts = {"A"}
  Targets = {"A/0"}
  Amounts = {1}
  MaxChains = 3
  MaxSeals = 2
  Progs = {"w1", "w2"}
  Fork = FALSE
  Acts = {"addbal", "call", "mine", "seal", "view"}
  Depth = 5
CHECK_DEADLOCK FALSE
