SPECIFICATION Spec29
INVARIANT Conforms
CHECK_DEADLOCK FALSE
