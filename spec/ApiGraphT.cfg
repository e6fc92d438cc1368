SPECIFICATION Spec
CONSTANT MaxPath = 6
INVARIANTS TypeOK Fed
CHECK_DEADLOCK FALSE
