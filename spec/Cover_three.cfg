SPECIFICATION Spec
CONSTANTS
  Dim = 3
  Side = 1
  K = 3
  MaxDiv = 2
  Overlaps = {1, 2}
INVARIANTS Odometer Tiles Filled Convex Nerve
CHECK_DEADLOCK FALSE
