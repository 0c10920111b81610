SPECIFICATION Spec
CONSTANTS Caps = {1, 2, 3, 4}
 ScoreSet = {1, 2, 3}
 MaxOps = 6
 KeepOne = TRUE
INVARIANTS Contract
PROPERTIES NoReturn
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
