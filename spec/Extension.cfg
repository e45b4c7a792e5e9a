SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxR = 3
  Primes = {2, 3}
INVARIANTS Post Trivial
CHECK_DEADLOCK FALSE
