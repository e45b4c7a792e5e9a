INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeChains
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
