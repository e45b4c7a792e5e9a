INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeSched
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
