SPECIFICATION Spec
CONSTANTS Caps = {1, 2, 3}
 Keys = {1, 2, 3, 4}
 ScoreMaps <- MapsQuick
 MaxOps = 5
 TakeCoeff = TRUE
 UpdateBest = TRUE
INVARIANTS Contract
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
