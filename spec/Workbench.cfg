SPECIFICATION Spec
CONSTANTS
  Len1 = 2
  All = FALSE
  Design = "good"
INVARIANTS FilesTrue LastWins
PROPERTY Steady
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
