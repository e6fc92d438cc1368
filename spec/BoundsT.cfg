SPECIFICATION Spec
CONSTANTS
  MaxLen = 14
  W = 20
  WIDE = TRUE
  MINLEN = TRUE
  LEVELS = TRUE
  Readers = {"data", "section", "name", "tree", "block", "images"}
INVARIANTS InBounds Shallow
PROPERTY Ends
