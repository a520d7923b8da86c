---- MODULE ArrayFieldsMC ----
EXTENDS ArrayFields
MCMins == {<<0,0,0>>}
MCRess == {<<1,1,1>>, <<2,1,1>>}
Few == TLCGet("level") <= 6
====
