SPECIFICATION Spec
CONSTANTS
 P = 3
 Rows = {2, 3, 6}
 FitValues = {0, 4}
 Roots = {0, 1, 2, 3, 4, 5, 6, 7}
 Cutoffs <- CutBoth
 QueueLimits = {0, 2, 100}
 Priors = {{}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
INVARIANTS TypeOK OnlyModels ExactlyOnce CountsRight NoOrphan Optimal CutoffHonoured CutoffUpper Progress FinalProgress
