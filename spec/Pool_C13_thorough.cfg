SPECIFICATION Spec
CONSTANTS
 Kind = "path"
 Sizes = {8, 10, 12}
 W = 6
 Rounds = 1
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
INVARIANTS EachOnce NothingLeft PathRight StartExists
