SPECIFICATION Spec
CONSTANTS
  NStages = 6
  Primes = {2, 3, 5}
INVARIANTS OwnResult ArgsKept
PROPERTIES Stable Ends
CHECK_DEADLOCK FALSE
