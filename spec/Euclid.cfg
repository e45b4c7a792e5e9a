SPECIFICATION Spec
CONSTANTS
  Moduli = {2,3,4,5,6,7,9,11,13,17,19,23}
  Span = 2
INVARIANTS Bezout Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
