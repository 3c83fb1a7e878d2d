SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0", "X"}
  Amounts = {0, 1, 9}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"w1", "make", "sub", "ret1", "stat"}
  Fork = FALSE
  Acts = {"createat", "mine", "seal", "static", "rcall", "rest", "rbal"}
  Depth = 3
CHECK_DEADLOCK FALSE
