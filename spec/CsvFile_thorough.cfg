SPECIFICATION Spec
CONSTANTS Shapes <- ShapesT
 Values <- Worths
 Depth = 2
INVARIANTS FileKept InPlace Whole
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
