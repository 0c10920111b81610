SPECIFICATION FairSpec
CONSTANTS
 Kind = "path"
 Sizes = {1, 2, 3, 4}
 W = 3
 Rounds = 1
 Values = {1}
 ByIndex = TRUE
 FirstCounts = TRUE
 WaitRound = TRUE
 Release = TRUE
PROPERTIES WorkersEnd
