SPECIFICATION Spec
CONSTANTS
 P = 3
 Rows = {2, 6}
 FitValues = {0, 4}
 Roots = {5}
 Cutoffs <- CutZero
 QueueLimits = {100}
 Priors = {{}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
INVARIANTS TypeOK OnlyModels ExactlyOnce CountsRight NoOrphan
