SPECIFICATION Spec
CONSTANTS
  Fixed = {52}
  Orders = {"sv", "svs"}
  Terms = {1}
  Tabs <- SomeTabs
  Chars = {1}
  Lies <- SomeLies
  ALIGNVAL = TRUE
  OWNEND = TRUE
INVARIANTS SpecReads OwnIsWellFormed OthersAreNot InBlock Nested Shallow ReadsMeaning NeverRefuses
PROPERTY Ends
