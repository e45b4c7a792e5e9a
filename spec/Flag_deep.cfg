SPECIFICATION Spec
CONSTANTS
  NV = 6
  MaxDim = 5
INVARIANTS Levels Closed Square
CHECK_DEADLOCK FALSE
