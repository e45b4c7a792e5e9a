SPECIFICATION Spec
CONSTANTS
  Side = 4
  Dim = 1
  N = 4
  Ask = 5
INVARIANTS Incremental PartOfCloud Greedy Decreasing Spread TwoOptimal
PROPERTY Ends
CHECK_DEADLOCK FALSE
