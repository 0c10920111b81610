SPECIFICATION FairSpec
CONSTANTS
 P = 3
 Rows = {3, 6}
 FitValues = {0, 4}
 Roots = {0, 5}
 Cutoffs <- CutZero
 QueueLimits = {1, 100}
 Priors = {{}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
PROPERTIES Terminates WorkersEnd
