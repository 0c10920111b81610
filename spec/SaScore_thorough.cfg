SPECIFICATION Spec
CONSTANTS Caps = {1, 2, 3, 4}
 Keys = {1, 2, 3, 4}
 ScoreMaps <- MapsThorough
 MaxOps = 6
 TakeCoeff = TRUE
 UpdateBest = TRUE
INVARIANTS Contract
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
