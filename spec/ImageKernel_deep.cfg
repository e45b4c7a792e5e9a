SPECIFICATION Spec
CONSTANTS
  NA = 3
  NB = 2
  MaxR = 3
  Primes = {2}
INVARIANTS PivotsDistinct Consistent Post
CHECK_DEADLOCK FALSE
