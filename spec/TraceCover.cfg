INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeCover
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
