SPECIFICATION GenSpec
CONSTANTS
  MaxId = 5
  Groups = {"a", "b"}
  MaxImages = 2
  MaxSteps = 3
  TRACKHI = TRUE
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
