SPECIFICATION Spec
CONSTANTS
  MaxSide = 8
  Origins <- MoreOrigins
  Longs = {10, 11, 64, 100, 255, 256, 257, 640, 1000, 2000}
  Sizes = {1, 2, 3, 16, 24, 33, 48, 64, 128, 255, 256}
  ORIGIN = TRUE
  GUARD = TRUE
INVARIANTS
  ShowsAll
  Resizes
PROPERTY Terminates
