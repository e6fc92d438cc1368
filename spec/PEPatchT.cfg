SPECIFICATION Spec
CONSTANTS
  MaxSecs = 3
  NewSizes = {1, 4, 7}
  MaxPatches = 2
  VSizes = {0, 5}
  REALIGN = TRUE
  HDRMEM = TRUE
INVARIANTS Sources Layout Embedded
PROPERTY PatchKeeps
CHECK_DEADLOCK FALSE
