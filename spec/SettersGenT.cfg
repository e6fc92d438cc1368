SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Langs = {0, 1033, 1036}
  Infos = {{}, {0}, {1033, 1036}, {0, 1033}}
  Wipe = FALSE
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
