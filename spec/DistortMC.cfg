SPECIFICATION Spec
CONSTANTS
  Steps = {1, 2, 5}
  Rates <- RatesV
  Scales <- ScalesV
  Turns <- TurnsV
  MaxTime = 12
INVARIANT Inv
CHECK_DEADLOCK FALSE
