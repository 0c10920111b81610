SPECIFICATION Spec
CONSTANT Sizes = {1, 2, 3, 4, 5, 6, 7}
INVARIANT Algebra
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
