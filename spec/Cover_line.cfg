SPECIFICATION Spec
CONSTANTS
  Dim = 1
  Side = 5
  K = 4
  MaxDiv = 5
  Overlaps = {1, 2, 3, 4}
INVARIANTS Odometer Tiles Filled Convex Nerve
CHECK_DEADLOCK FALSE
