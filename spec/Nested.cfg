SPECIFICATION Spec
CONSTANTS Small = {3, 4}
 Large = {7, 15}
 Keeps = {4, 6, 7}
 ByName = FALSE
INVARIANTS Survivors BestFirst Within Ended
PROPERTIES Shrinks Ends
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
