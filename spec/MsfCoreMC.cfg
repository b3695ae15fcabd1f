SPECIFICATION Spec
CONSTANTS MaxImu = 5
 MaxMeas = 3
 Steps = {4}
 Ahead = 6
 Kinds = {"ok", "gated"}
 TooFar <- MCTooFar
INVARIANTS InvSorted InvChrono InvNoneLost InvHeld InvFresh InvOnce InvRejected InvGated
CHECK_DEADLOCK FALSE
PROPERTY NoEffect
