SPECIFICATION Spec
CONSTANTS TMax = 5
 IdMax = 5
INVARIANT Refines
CHECK_DEADLOCK FALSE
