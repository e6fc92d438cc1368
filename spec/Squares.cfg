SPECIFICATION Spec
CONSTANTS
  MaxSide = 5
  Origins <- SomeOrigins
  Longs = {10, 11, 64, 257, 640}
  Sizes = {1, 2, 16, 33, 256}
  ORIGIN = TRUE
  GUARD = TRUE
INVARIANTS
  ShowsAll
  Resizes
PROPERTY Terminates
