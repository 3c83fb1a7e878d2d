SPECIFICATION MSpec
CONSTANTS
  Curs <- Table
  RateDigits = 1
  N = 4
  M = 130
  Emit = FALSE
INVARIANTS Inverse1 Inverse2 Inverse3 Scale Again NoJunk Must Arithmetic Floors There Unique
CHECK_DEADLOCK FALSE
