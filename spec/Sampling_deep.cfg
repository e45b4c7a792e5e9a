SPECIFICATION Spec
CONSTANTS
  Side = 2
  Dim = 2
  N = 5
  Ask = 5
INVARIANTS Incremental PartOfCloud Greedy Decreasing Spread TwoOptimal
PROPERTY Ends
CHECK_DEADLOCK FALSE
