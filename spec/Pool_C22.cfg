SPECIFICATION Spec
CONSTANTS
 Kind = "kappa"
 Sizes = {0, 1, 2, 3, 4, 6}
 W = 3
 Rounds = 1
 Values = {0, 2}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
INVARIANTS EachOnce NothingLeft BestRight
