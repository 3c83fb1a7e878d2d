SPECIFICATION TSpec
CONSTANTS
  IsField <- IsElement
  Plus <- FPlus
  Less <- FLess
  Times <- FTimes
  Zero <- FZero
  Seven <- SevenF
  IsOdd <- OddF
  Generator <- G
  SumOf <- SumN
  Nought <- NoughtN
  One <- OneN
  Order <- OrderN
  Below <- BelowN
  Number <- NumF
POSTCONDITION Report
CHECK_DEADLOCK FALSE
