SPECIFICATION Spec
CONSTANTS
  Halves <- HalvesD
  Heights <- HeightsV
  Quats <- QuatsD
  Vecs <- VecsD
  Scales <- ScalesD
  MaxPairs = 3
INVARIANTS ReferenceOk DirectionsOk EllipsoidOk SimilarityOk CovOk
CHECK_DEADLOCK FALSE
