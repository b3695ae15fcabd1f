SPECIFICATION Spec
CONSTANTS
 MaxP = 3
 MaxR = 3
 Hs <- Rows
INVARIANT Consistent
CHECK_DEADLOCK FALSE
