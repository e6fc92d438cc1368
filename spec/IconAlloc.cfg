SPECIFICATION Spec
CONSTANTS
  MaxId = 4
  Groups = {"a", "b"}
  MaxImages = 2
  MaxSteps = 4
  TRACKHI = TRUE
INVARIANTS Isolated Disjoint InRange
PROPERTY KeepsOthers
CHECK_DEADLOCK FALSE
