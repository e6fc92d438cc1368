SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
