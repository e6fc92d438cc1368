SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
