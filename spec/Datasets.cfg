SPECIFICATION Spec
CONSTANTS P = 2
 MaxOps = 3
INVARIANTS NamesFollow ValuesFollow
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
