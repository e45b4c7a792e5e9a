SPECIFICATION Spec
CONSTANTS
  NV = 5
  MaxW = 2
  Primes = {3}
  MaxDim = 3
INVARIANTS Built ChainComplex Post
CHECK_DEADLOCK FALSE
