SPECIFICATION Spec
CONSTANTS
  p = 3
  NReg = 2
  NR = 2
  Depth = 4
INVARIANTS Typed Laws
CHECK_DEADLOCK FALSE
