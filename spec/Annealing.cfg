CONSTANTS
 P = 3
 Limit = 3
 NCost = 2
 Caps = {1, 2}
 MaxSteps = 4
 RevertRejected = TRUE
 RevertEmpty = TRUE
 RespectLimit = TRUE
 AcceptBetter = TRUE
SPECIFICATION Spec
INVARIANTS Legal Sound ListBest
CHECK_DEADLOCK FALSE
