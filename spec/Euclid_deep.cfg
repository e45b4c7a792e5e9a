SPECIFICATION Spec
CONSTANTS
  Moduli = {2,3,4,5,6,7,8,9,10,11,12,13,15,17,19,21,23,25,27,29,31,33,35,37,41,43,47,49,53,59,61,67,71,73,79,83,89,97,101}
  Span = 3
INVARIANTS Bezout Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
