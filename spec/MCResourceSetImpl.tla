------------------------- MODULE MCResourceSetImpl -------------------------
EXTENDS ResourceSetImpl
MCTypes == {<<1, 2>>, <<0, 65>>}
MCRess == {<<1, 7>>, <<0, 98>>}
=============================================================================
