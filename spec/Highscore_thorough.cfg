SPECIFICATION Spec
CONSTANTS Caps = {1, 2, 3, 4, 5}
 ScoreSet = {1, 2, 3, 4}
 MaxOps = 7
 KeepOne = TRUE
INVARIANTS Contract
PROPERTIES NoReturn
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
