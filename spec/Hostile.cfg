SPECIFICATION Spec
CONSTANT Pairs = {"zero", "max", "n"}
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
