SPECIFICATION Spec
CONSTANT MaxPath = 4
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
