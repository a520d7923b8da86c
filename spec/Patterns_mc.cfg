SPECIFICATION MCSpec
CONSTANTS Layers <- MCLayers
INVARIANTS OrderFree NoInclusionNothing AllExcluded
PROPERTY Monotone
CHECK_DEADLOCK FALSE
