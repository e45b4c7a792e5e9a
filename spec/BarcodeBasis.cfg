SPECIFICATION Spec
CONSTANTS
  N = 2
  MaxR = 3
  p = 3
INVARIANTS InStep StandardOrder NoDead
CHECK_DEADLOCK FALSE
