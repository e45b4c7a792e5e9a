INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeHistory
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
