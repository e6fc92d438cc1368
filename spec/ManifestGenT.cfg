SPECIFICATION Spec
CONSTANT Full = TRUE
INVARIANT StatesExactly
CHECK_DEADLOCK FALSE
