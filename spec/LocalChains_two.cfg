SPECIFICATION Spec
CONSTANTS
  p = 5
  NReg = 3
  NR = 2
  Depth = 3
INVARIANTS Typed Laws
CHECK_DEADLOCK FALSE
