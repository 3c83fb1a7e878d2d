SPECIFICATION GSpec
CONSTANTS
  Accts = {"X", "C"}
  Targets = {"A/0", "X"}
  Amounts = {0, 1}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"w1", "dele", "die"}
  Fork = TRUE
  Acts = {"send", "mine", "createat", "s.snap", "s.revert", "s.addbal", "s.setnonce", "s.setcode", "s.setst"}
  Depth = 3
CHECK_DEADLOCK FALSE
