SPECIFICATION Spec
CONSTANTS
  MaxLen = 10
  W = 16
  WIDE = TRUE
  MINLEN = TRUE
  LEVELS = TRUE
  Readers = {"data", "section", "name", "tree", "block", "images"}
INVARIANTS InBounds Shallow
PROPERTY Ends
