SPECIFICATION FairSpec
CONSTANTS
 Kind = "grid"
 Sizes = {1, 2, 3}
 W = 2
 Rounds = 2
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
PROPERTIES WorkersEnd
