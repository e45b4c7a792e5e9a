INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeGauss
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
