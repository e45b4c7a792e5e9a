SPECIFICATION Spec
CONSTANTS
  Side = 2
  Dim = 2
  N = 3
  Ask = 3
INVARIANTS Incremental PartOfCloud Greedy Decreasing Spread TwoOptimal
PROPERTY Ends
CHECK_DEADLOCK FALSE
