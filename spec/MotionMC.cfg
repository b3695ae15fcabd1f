SPECIFICATION Spec
CONSTANTS Depth = 2
  Dts = {10, 85}
INVARIANTS Accepted Equivariant Mistakes Line
CHECK_DEADLOCK FALSE
