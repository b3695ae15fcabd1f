SPECIFICATION Spec
CONSTANTS
 MaxP = 2
 MaxR = 2
 Hs <- Rows
INVARIANT Consistent
CHECK_DEADLOCK FALSE
