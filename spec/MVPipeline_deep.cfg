SPECIFICATION Spec
CONSTANTS
  Stages = 1
  MaxTasks = 5
  MaxWorkers = 3
INVARIANTS Deterministic OncePerTask Partial
PROPERTY Finishes
CHECK_DEADLOCK FALSE
