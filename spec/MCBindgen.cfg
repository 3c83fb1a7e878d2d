SPECIFICATION MSpec
CONSTANTS
  W = 4
  A = 1
  InTypes = {"bool", "uint24", "bytes4", "uint8[]", "bytes4[]", "address", "address[]", "string"}
  OutTypes = {"uint8", "bytes"}
  MaxIn = 2
  MaxOut = 1
  Emit = FALSE
INVARIANTS WholePkg OffersRight OnlyThat Truthful Finds
CHECK_DEADLOCK FALSE
