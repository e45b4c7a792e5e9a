SPECIFICATION Spec
CONSTANTS
  NA = 2
  NB = 2
  MaxR = 3
  Primes = {2, 3}
INVARIANTS PivotsDistinct Consistent Post
CHECK_DEADLOCK FALSE
