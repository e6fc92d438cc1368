SPECIFICATION Spec
CONSTANTS
  Langs = {0, 7, 1033}
  Keys = {"a", "b"}
  Vals = {1, 2}
  MergeLangs = {0, 7, 1033}
INVARIANT PrintCase
