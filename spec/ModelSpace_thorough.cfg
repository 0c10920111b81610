SPECIFICATION Spec
CONSTANTS Entries <- Bin
 Target <- Target5
 NumFeat = 4
 Mod = 3
 Rem = 0
INVARIANTS Antitone PenaltiesAscend BoundsHold TightAtEnd
PROPERTIES Tightens Decided
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
