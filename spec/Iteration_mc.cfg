SPECIFICATION MCSpec
CONSTANTS Its = {1}
INVARIANTS Enumerates BlocksPartition GrainsPartition
CHECK_DEADLOCK FALSE
