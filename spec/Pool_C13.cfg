SPECIFICATION Spec
CONSTANTS
 Kind = "path"
 Sizes = {1, 2, 3, 5, 7}
 W = 4
 Rounds = 1
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
INVARIANTS EachOnce NothingLeft PathRight StartExists
