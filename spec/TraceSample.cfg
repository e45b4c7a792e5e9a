INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeSample
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
