SPECIFICATION Spec
CONSTANTS MaxImu = 5
 MaxMeas = 2
 Steps = {4, 16}
 Ahead = 4
 Kinds = {"ok"}
 TooFar <- MCTooFar
INVARIANTS InvSorted InvChrono InvNoneLost InvHeld InvFresh InvOnce InvRejected InvGated
CHECK_DEADLOCK FALSE
PROPERTY NoEffect
