SPECIFICATION Spec
CONSTANT Pairs = {"zero", "one", "max", "n", "top", "v+1"}
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
