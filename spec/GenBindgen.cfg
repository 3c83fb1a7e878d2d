SPECIFICATION MSpec
CONSTANTS
  W = 4
  A = 1
  InTypes = {"bool", "int8", "uint24", "uint64", "uint256", "int256", "bytes1", "bytes32", "uint8[]", "uint256[]", "bool[]", "bytes32[]", "address", "address[]", "string", "bytes"}
  OutTypes = {"bool", "int64", "uint8", "uint128", "int24", "int128", "bytes4", "bytes32", "bool[]", "uint256[]", "bytes4[]", "address", "address[]", "bytes", "string"}
  MaxIn = 1
  MaxOut = 2
  Emit = TRUE
CHECK_DEADLOCK FALSE
