INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  IsField <- IsF
  Plus <- FPlus
  Less <- FLess
  Times <- FTimes
  Zero = 0
  Seven = 7
  IsOdd <- Odd
  Generator <- G
  SumOf <- SumN
  Nought = 0
  One = 1
  Order <- N
  M = 43
  N = 31
  GX = 2
  GY = 12
  Below <- BelowN
  Number <- Same
INVARIANTS IsFunction Closed Commutes Associates HasOpposite Multiples Lifts Signs
