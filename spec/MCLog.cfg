SPECIFICATION MCSpec
CONSTANTS
  Depth = 4
  Levels = {10, 20, 30}
INVARIANTS Decided
PROPERTIES Local
CHECK_DEADLOCK FALSE
