INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS PrimeIs Sums Differences Products
CONSTANT All = FALSE
