SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0", "X"}
  Amounts = {0, 1, 9}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"w1"}
  Fork = FALSE
  Acts = {"s.snap", "s.revert", "s.create", "s.suicide", "s.addbal", "s.setnonce", "s.setcode", "s.setst", "s.addrefund", "s.log"}
  Depth = 4
CHECK_DEADLOCK FALSE
