SPECIFICATION MSpec
CONSTANTS
  W = 4
  A = 1
  InTypes = {"uint24", "string"}
  OutTypes = {"bool", "uint8", "uint256", "int24", "bytes4", "bool[]", "bytes4[]", "address", "address[]", "bytes"}
  MaxIn = 1
  MaxOut = 2
  Emit = FALSE
INVARIANTS WholePkg OffersRight OnlyThat Truthful Finds
CHECK_DEADLOCK FALSE
