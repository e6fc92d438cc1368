SPECIFICATION GenSpec
CONSTANTS
  MaxSide = 7
  Origins <- MoreOrigins
  Longs = {10, 11, 64, 256, 257, 640, 1000}
  Sizes = {1, 2, 3, 16, 33, 64, 256}
  ORIGIN = TRUE
  GUARD = TRUE
INVARIANT PrintCase
