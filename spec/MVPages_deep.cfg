SPECIFICATION Spec
CONSTANTS
  NV = 5
  M = 3
  MaxW = 3
  Top = 2
  Primes = {3}
  Labels <- TwoThree
INVARIANTS Oracle Ranks NonNegative Converges Shrinks
VIEW state
CHECK_DEADLOCK FALSE
