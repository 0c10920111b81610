SPECIFICATION Spec
CONSTANTS Entries <- Trits
 Target <- Target4
 NumFeat = 3
 Mod = 4
 Rem = 0
INVARIANTS Orthogonal Smallest Once Complete
PROPERTIES Lowers Ends
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
