SPECIFICATION Spec
CONSTANTS
  NV = 5
  MaxDim = 4
INVARIANTS Levels Closed Square
CHECK_DEADLOCK FALSE
