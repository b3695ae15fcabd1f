SPECIFICATION Spec
CONSTANTS
  Quats <- QuatsD
  Vecs <- VecsD
  Scales <- ScalesD
INVARIANTS PoseModelOk RelativeOk PositionOk SphericalOk
CHECK_DEADLOCK FALSE
