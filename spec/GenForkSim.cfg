SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "X", "C"}
  Targets = {"A/0", "X"}
  Amounts = {0, 1}
  MaxChains = 1
  MaxSeals = 6
  Progs = {"w1", "ret1", "deep", "dele", "die"}
  Fork = TRUE
  Acts = {"send", "mine", "createat", "s.snap", "s.revert", "s.addbal", "s.setnonce", "s.setcode", "s.setst"}
  Depth = 14
CHECK_DEADLOCK FALSE
