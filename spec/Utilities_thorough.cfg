SPECIFICATION Spec
CONSTANTS Vals <- Few
 MaxLen = 6
 Elems = {0, 1, 2}
 MaxUnion = 3
 MaxCols = 6
INVARIANTS Extremes UnionRight IsRearrangement
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
