SPECIFICATION Spec
CONSTANTS
  MaxId = 5
  Groups = {"a", "b"}
  MaxImages = 2
  MaxSteps = 6
  TRACKHI = TRUE
INVARIANTS Isolated Disjoint InRange
PROPERTY KeepsOthers
CHECK_DEADLOCK FALSE
