SPECIFICATION Spec
CONSTANTS
  Stages = 2
  MaxTasks = 3
  MaxWorkers = 3
INVARIANTS Deterministic OncePerTask Partial
PROPERTY Finishes
CHECK_DEADLOCK FALSE
