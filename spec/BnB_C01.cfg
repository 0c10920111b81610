SPECIFICATION Spec
CONSTANTS
 P = 3
 Rows = {3}
 FitValues = {0, 4}
 Roots = {0, 3}
 Cutoffs <- CutZero
 QueueLimits = {100}
 Priors = {{}, {2}, {4, 7}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
INVARIANTS TypeOK OnlyModels ExactlyOnce CountsRight NoOrphan Optimal
PROPERTIES BestMonotone
