SPECIFICATION Spec
CONSTANTS MaxCalls = 5
 MaxWrites = 2
 NumThreads = 3
 Mode = "pure"
INVARIANTS ResultsTrue DataKept
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
