SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 7, 8, 9, 16, 17, 20}
 MaxOps = 3
 CellBits = 8
INVARIANT Agree
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
