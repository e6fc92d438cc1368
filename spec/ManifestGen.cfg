SPECIFICATION Spec
CONSTANT Full = FALSE
INVARIANT StatesExactly
CHECK_DEADLOCK FALSE
