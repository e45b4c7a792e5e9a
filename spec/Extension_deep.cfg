SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxR = 4
  Primes = {2, 3, 5}
INVARIANTS Post Trivial
CHECK_DEADLOCK FALSE
