SPECIFICATION Spec
CONSTANTS
 P = 3
 Rows = {6}
 FitValues = {0, 4}
 Roots = {0, 1}
 Cutoffs <- CutZero
 QueueLimits = {100}
 Priors = {{}, {2}, {4, 7}}
 W = 2
 ScoreRoot = TRUE
 LenFirst = TRUE
 ListGuard = TRUE
 LcsRowRule = TRUE
 SignedCutoff = TRUE
 BufferedReady = TRUE
 CurrentBest = TRUE
 PruneOnce = TRUE
INVARIANTS Progress FinalProgress
PROPERTIES ProgressMonotone BestMonotone
