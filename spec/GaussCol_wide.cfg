SPECIFICATION Spec
CONSTANTS
  M = 3
  N = 4
  Primes = {2}
INVARIANTS Invariant Post RankIsCount
PROPERTIES PivotDecreases Terminates
CHECK_DEADLOCK FALSE
