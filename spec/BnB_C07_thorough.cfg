SPECIFICATION Spec
CONSTANTS
 P = 3
 Rows = {3, 6}
 FitValues = {0, 3, 5}
 Roots = {0, 2, 7}
 Cutoffs <- CutBoth
 QueueLimits = {100}
 Priors = {{}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
INVARIANTS TypeOK OnlyModels ExactlyOnce CountsRight NoOrphan Optimal CutoffHonoured CutoffUpper Progress FinalProgress
PROPERTIES ProgressMonotone BestMonotone
