SPECIFICATION Spec
CONSTANTS MaxImu = 6
 MaxMeas = 3
 Steps = {4}
 Ahead = 4
 Kinds = {"ok"}
 TooFar <- MCTooFar
INVARIANTS InvSorted InvChrono InvNoneLost InvHeld InvFresh InvOnce InvRejected InvGated
CHECK_DEADLOCK FALSE
PROPERTY NoEffect
