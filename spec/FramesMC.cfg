SPECIFICATION Spec
CONSTANTS
  Halves <- HalvesV
  Heights <- HeightsV
  Quats <- QuatsV
  Vecs <- VecsV
  Scales <- ScalesV
  MaxPairs = 3
INVARIANTS ReferenceOk DirectionsOk EllipsoidOk SimilarityOk CovOk
CHECK_DEADLOCK FALSE
