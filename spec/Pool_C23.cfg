SPECIFICATION Spec
CONSTANTS
 Kind = "grid"
 Sizes = {1, 2, 3, 5, 6}
 W = 4
 Rounds = 3
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
INVARIANTS EachOnce NothingLeft SamePartitions
