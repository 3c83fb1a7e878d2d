SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0", "X", "B"}
  Amounts = {0, 1, 9}
  MaxChains = 1
  MaxSeals = 6
  Progs = {"none", "sub", "subok", "deep", "make", "maker", "makesub", "die", "dier"}
  Fork = FALSE
  Acts = {"addbal", "subbal", "call", "send", "create", "mine"}
  Depth = 14
CHECK_DEADLOCK FALSE
