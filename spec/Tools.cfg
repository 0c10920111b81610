SPECIFICATION Spec
INVARIANT Sane
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
