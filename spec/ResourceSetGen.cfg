SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
