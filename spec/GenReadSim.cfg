SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0", "X"}
  Amounts = {0, 1, 9}
  MaxChains = 1
  MaxSeals = 6
  Progs = {"w1", "log1", "make", "sub", "ret1", "stat", "die"}
  Fork = FALSE
  Acts = {"createat", "mine", "seal", "static", "rcall", "rest", "rbal"}
  Depth = 14
CHECK_DEADLOCK FALSE
