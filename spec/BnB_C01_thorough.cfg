SPECIFICATION Spec
CONSTANTS
 P = 3
 Rows = {2, 3, 6}
 FitValues = {0, 3, 5}
 Roots = {0, 1, 6, 7}
 Cutoffs <- CutNeg
 QueueLimits = {100}
 Priors = {{}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
INVARIANTS TypeOK OnlyModels ExactlyOnce CountsRight NoOrphan Optimal CutoffHonoured CutoffUpper Progress FinalProgress
PROPERTIES BestMonotone
