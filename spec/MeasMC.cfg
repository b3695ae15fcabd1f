SPECIFICATION Spec
CONSTANTS
  Quats <- QuatsV
  Vecs <- VecsV
  Scales <- ScalesV
INVARIANTS PoseModelOk RelativeOk PositionOk SphericalOk
CHECK_DEADLOCK FALSE
