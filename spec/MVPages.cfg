SPECIFICATION Spec
CONSTANTS
  NV = 4
  M = 2
  MaxW = 2
  Top = 2
  Primes = {2, 3}
  Labels <- AllLabels
INVARIANTS Oracle Ranks NonNegative Converges Shrinks
VIEW state
CHECK_DEADLOCK FALSE
