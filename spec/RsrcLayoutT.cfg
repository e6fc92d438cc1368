SPECIFICATION Spec
CONSTANTS
  Types = {0, 1}
  Ress = {0, 1}
  Langs = {0, 1}
  Sizes = {0, 3, 8}
  NameIds = {0, 1}
  NamesOnRoot = TRUE
INVARIANTS PromisesKept NoOverlap Complete Aligned
CHECK_DEADLOCK FALSE
