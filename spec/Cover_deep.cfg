SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Side = 3
  K = 3
  MaxDiv = 4
  Overlaps = {1, 2, 3}
INVARIANTS Odometer Tiles Filled Convex Nerve
CHECK_DEADLOCK FALSE
