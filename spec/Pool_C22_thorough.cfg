SPECIFICATION Spec
CONSTANTS
 Kind = "kappa"
 Sizes = {4, 5, 7}
 W = 4
 Rounds = 1
 Values = {0, 1, 2}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
INVARIANTS EachOnce NothingLeft BestRight
