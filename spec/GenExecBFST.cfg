SPECIFICATION GSpec
CONSTANTS
  Accts = {"A", "B"}
  Targets = {"A/0", "X", "B"}
  Amounts = {0, 1, 9}
  MaxChains = 1
  MaxSeals = 2
  Progs = {"w1", "wr", "wi", "log1", "sub", "subi", "subok", "deep", "dele", "stat", "make", "maker", "makesub", "die", "dier"}
  Fork = FALSE
  Acts = {"call", "create", "createat", "mine"}
  Depth = 3
CHECK_DEADLOCK FALSE
