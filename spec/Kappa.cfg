SPECIFICATION Spec
CONSTANT Sizes = {1, 2, 3, 4, 5}
INVARIANT Algebra
CONSTRAINT Gen
CHECK_DEADLOCK FALSE
