SPECIFICATION Spec
CONSTANTS
  M = 2
  N = 3
  Primes = {5}
INVARIANTS Invariant Post RankIsCount
PROPERTIES PivotDecreases Terminates
CHECK_DEADLOCK FALSE
