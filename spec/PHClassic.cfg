SPECIFICATION Spec
CONSTANTS
  NV = 4
  MaxW = 3
  Primes = {2, 3}
  MaxDim = 3
INVARIANTS Built ChainComplex Post
CHECK_DEADLOCK FALSE
