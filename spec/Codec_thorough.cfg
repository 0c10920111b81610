SPECIFICATION Spec
CONSTANTS Caps = {1, 2, 3, 4}
 Scores = {1, 2}
 MaxOps = 6
 Reinsert = FALSE
INVARIANTS Contract SameLife
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
