SPECIFICATION Spec
CONSTANTS MaxP = 3
 MaxD = 3
 MaxBlocks = 2
INVARIANTS BlockRight
PROPERTIES Grows Finishes
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
