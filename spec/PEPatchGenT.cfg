SPECIFICATION GenSpec
CONSTANTS
  MaxSecs = 3
  NewSizes = {1, 4, 7}
  MaxPatches = 1
  VSizes = {0, 5}
  REALIGN = TRUE
  HDRMEM = TRUE
  Full = FALSE
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
