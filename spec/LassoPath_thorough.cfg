SPECIFICATION Spec
CONSTANTS Base <- Base5
 NumFeat = 3
 Mod = 61
 Rem = 7
 Grid = {1, 2, 3, 5, 8, 13}
INVARIANTS Optimal Agrees Unique EndsAtLeastSquares
PROPERTIES Decreasing Ends
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
