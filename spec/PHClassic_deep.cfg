SPECIFICATION Spec
CONSTANTS
  NV = 4
  MaxW = 4
  Primes = {2, 5}
  MaxDim = 3
INVARIANTS Built ChainComplex Post
CHECK_DEADLOCK FALSE
