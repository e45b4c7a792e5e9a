SPECIFICATION Spec
CONSTANTS
  N1 = 1
  N2 = 2
  N3 = 2
  MaxR = 3
  p = 3
INVARIANT Post
CHECK_DEADLOCK FALSE
