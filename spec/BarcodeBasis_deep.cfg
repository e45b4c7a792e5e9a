SPECIFICATION Spec
CONSTANTS
  N = 3
  MaxR = 3
  p = 2
INVARIANTS InStep StandardOrder NoDead
CHECK_DEADLOCK FALSE
