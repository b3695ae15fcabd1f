SPECIFICATION Spec
CONSTANTS N = 5
 MaxOffset = 3
INVARIANTS NoneLost NoneTwice Bound
PROPERTIES Delivered Stable
CHECK_DEADLOCK FALSE
