SPECIFICATION GenSpec
CONSTANTS
  Fixed = {0, 52, 56}
  Orders = {"sv", "vs", "s", "v", "svs"}
  Terms = {0, 1, 2, 3}
  Tabs <- SomeTabs
  Chars = {0, 1, 2, 3, 4}
  Lies <- NoLies
  ALIGNVAL = TRUE
  OWNEND = TRUE
INVARIANT PrintCase
