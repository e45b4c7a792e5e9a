INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeSimp
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
