SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  Langs = {0, 1033, 1036}
  Infos = {{}, {0}, {1033, 1036}, {0, 1033}}
  Wipe = FALSE
INVARIANTS ManifestFound VersionFound GroupFound OtherFound
PROPERTY Frame
CHECK_DEADLOCK FALSE
