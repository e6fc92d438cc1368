SPECIFICATION GenSpec
CONSTANTS
  Types = {0, 1}
  Ress = {0, 1, 2}
  Langs = {0, 1}
  Sizes = {5}
  NameIds = {0}
  NamesOnRoot = TRUE
INVARIANT PrintCase
CHECK_DEADLOCK FALSE
