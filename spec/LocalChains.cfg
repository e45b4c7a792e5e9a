SPECIFICATION Spec
CONSTANTS
  p = 3
  NReg = 2
  NR = 2
  Depth = 3
INVARIANTS Typed Laws
CHECK_DEADLOCK FALSE
