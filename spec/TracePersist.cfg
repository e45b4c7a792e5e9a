INIT TInit
NEXT TNext
CONSTANT Judge <- JudgePersist
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
