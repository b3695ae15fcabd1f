SPECIFICATION Spec
CONSTANTS Depth = 3
  Dts = {10, 40, 85}
INVARIANTS Accepted Equivariant Mistakes Line
CHECK_DEADLOCK FALSE
