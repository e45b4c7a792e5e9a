SPECIFICATION Spec
CONSTANTS
  NV = 6
  M = 3
  MaxW = 2
  Top = 2
  Primes = {3}
  Labels <- TwoThreeOne
INVARIANTS Oracle Ranks NonNegative Converges Shrinks
VIEW state
CHECK_DEADLOCK FALSE
