SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
