SPECIFICATION Spec
CONSTANTS
 P = 3
 Rows = {3}
 FitValues = {0, 4}
 Roots = {6}
 Cutoffs <- CutZero
 QueueLimits = {0, 100}
 Priors = {{}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
INVARIANTS TypeOK OnlyModels ExactlyOnce CountsRight NoOrphan
