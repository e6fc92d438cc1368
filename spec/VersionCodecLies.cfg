SPECIFICATION Spec
CONSTANTS
  Fixed = {52}
  Orders = {"sv"}
  Terms = {1}
  Tabs <- OneTab
  Chars = {1}
  Lies <- SomeLies
  ALIGNVAL = TRUE
  OWNEND = TRUE
INVARIANTS SpecReads OwnIsWellFormed OthersAreNot InBlock Nested Shallow ReadsMeaning NeverRefuses
PROPERTY Ends
