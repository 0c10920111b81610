SPECIFICATION Spec
CONSTANTS MaxP = 2
 MaxD = 4
 MaxBlocks = 3
INVARIANTS BlockRight
PROPERTIES Grows Finishes
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
