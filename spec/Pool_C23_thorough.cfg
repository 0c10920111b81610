SPECIFICATION Spec
CONSTANTS
 Kind = "grid"
 Sizes = {5, 8, 11}
 W = 5
 Rounds = 4
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
INVARIANTS EachOnce NothingLeft SamePartitions
