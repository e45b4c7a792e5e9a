SPECIFICATION Spec
CONSTANTS
  M = 3
  S = 2
  MaxRad = 1
  p = 3
INVARIANT Post
PROPERTY Terminates
CHECK_DEADLOCK FALSE
