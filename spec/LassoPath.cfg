SPECIFICATION Spec
CONSTANTS Base <- Base4
 NumFeat = 3
 Mod = 1
 Rem = 0
 Grid = {3, 8}
INVARIANTS Optimal Agrees Unique EndsAtLeastSquares
PROPERTIES Decreasing Ends
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
