SPECIFICATION Spec
CONSTANTS
 Kind = "path"
 Sizes = {2, 3, 4, 5}
 W = 5
 Rounds = 1
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
INVARIANTS EachOnce NothingLeft
CONSTRAINT Gen
