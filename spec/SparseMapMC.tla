---- MODULE SparseMapMC ----
EXTENDS SparseMap
MCMins == {<<0,0,0>>}
MCRess == {<<3,1,1>>}
====
