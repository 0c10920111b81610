SPECIFICATION Spec
CONSTANTS Caps = {2, 3}
 Scores = {1, 2}
 MaxOps = 5
 Reinsert = FALSE
INVARIANTS Contract SameLife
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
