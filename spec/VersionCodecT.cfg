SPECIFICATION Spec
CONSTANTS
  Fixed = {0, 52, 56}
  Orders = {"sv", "vs", "s", "v", "svs"}
  Terms = {0, 1, 2, 3}
  Tabs <- SomeTabs
  Chars = {0, 1, 2, 3, 4}
  Lies <- NoLies
  ALIGNVAL = TRUE
  OWNEND = TRUE
INVARIANTS SpecReads OwnIsWellFormed OthersAreNot InBlock Nested Shallow ReadsMeaning NeverRefuses
PROPERTY Ends
