SPECIFICATION Spec
CONSTANTS
  MaxFetches = 3
  MaxBatch = 2
  Buf = 2
  Polls = {TRUE, FALSE}
INVARIANTS Nothing_lost ErrRight
PROPERTIES Refines Ends
CHECK_DEADLOCK FALSE
