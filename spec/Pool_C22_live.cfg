SPECIFICATION FairSpec
CONSTANTS
 Kind = "kappa"
 Sizes = {0, 1, 2, 3}
 W = 3
 Rounds = 1
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
PROPERTIES WorkersEnd
