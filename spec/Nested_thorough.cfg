SPECIFICATION Spec
CONSTANTS Small = {3, 4, 5}
 Large = {7, 9, 11, 13, 15}
 Keeps = {1, 2, 3, 4, 5, 6, 7}
 ByName = FALSE
INVARIANTS Survivors BestFirst Within Ended
PROPERTIES Shrinks Ends
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
