SPECIFICATION Spec
CONSTANTS
  NV = 4
  M = 2
  MaxW = 2
  Top = 2
  Primes = {2, 5}
  Labels <- AllLabels
INVARIANTS Complex Restricts Zigzags
CHECK_DEADLOCK FALSE
