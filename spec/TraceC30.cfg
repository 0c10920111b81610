SPECIFICATION Spec30
INVARIANT Conforms
CHECK_DEADLOCK FALSE
