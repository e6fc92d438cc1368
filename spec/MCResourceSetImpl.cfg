SPECIFICATION Spec
CONSTANTS
  Types <- MCTypes
  Ress <- MCRess
  Langs = {0, 1}
  Datas = {1}
  REFRESH = TRUE
INVARIANTS Refines NoEmptyBranch NoStaleOrder WalkIsCanonical
CHECK_DEADLOCK FALSE
