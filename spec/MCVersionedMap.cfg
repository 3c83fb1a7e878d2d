SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Vals = {0, 1}
  MaxTrees = 2
  MaxSnaps = 2
CONSTRAINT Bound
INVARIANTS TypeOK Sorted
PROPERTIES Isolated SnapsImmutable
CHECK_DEADLOCK FALSE
