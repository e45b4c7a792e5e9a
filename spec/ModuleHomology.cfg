SPECIFICATION Spec
CONSTANTS
  N1 = 1
  N2 = 2
  N3 = 1
  MaxR = 3
  p = 2
INVARIANT Post
CHECK_DEADLOCK FALSE
