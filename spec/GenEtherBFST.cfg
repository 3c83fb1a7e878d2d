SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0", "X", "B"}
  Amounts = {0, 1, 9}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"none", "sub", "subok", "deep", "maker", "makesub", "die", "dier", "dieself"}
  Fork = FALSE
  Acts = {"addbal", "subbal", "call", "send", "create", "mine"}
  Depth = 3
CHECK_DEADLOCK FALSE
