SPECIFICATION Spec
CONSTANTS Shapes <- ShapesQ
 Values <- Worths
 Depth = 2
INVARIANTS FileKept InPlace Whole
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
