---------------------------- MODULE CacheContent ----------------------------
(* What the files used with the block cache contain: every file has the same window (minimum, resolution) and its
   own block order; block b is stored iff Alloc. The driver writes the files from the same definition. *)
EXTENDS Grid
Alloc(file, b) == (b * 3 + file) % 4 # 0                       \* b is a 0-based block number
FileVal(file, res, order, n) ==                                \* n is a 1-based voxel number
   LET b == BlockOf(n, res, order) - 1 IN
   IF Alloc(file, b) THEN ((n * 7 + file * 5) % 13) + 1 ELSE 0 - ((b + file) % 3) - 1
NBlocks(res, order) == Prod(BRes(res, order))
=============================================================================
