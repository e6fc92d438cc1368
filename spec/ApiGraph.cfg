SPECIFICATION Spec
CONSTANT MaxPath = 4
INVARIANTS TypeOK Fed
CHECK_DEADLOCK FALSE
