SPECIFICATION Spec
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
