SPECIFICATION Spec
CONSTANTS
  Dim = 2
  Side = 2
  K = 3
  MaxDiv = 3
  Overlaps = {1, 2}
INVARIANTS Odometer Tiles Filled Convex Nerve
CHECK_DEADLOCK FALSE
