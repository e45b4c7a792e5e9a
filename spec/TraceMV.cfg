INIT TInit
NEXT TNext
CONSTANT Judge <- JudgeMV
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
