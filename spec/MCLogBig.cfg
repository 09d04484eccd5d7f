SPECIFICATION MCSpec
CONSTANTS
  Depth = 5
  Levels = {10, 20, 30, 40}
INVARIANTS Decided
PROPERTIES Local
CHECK_DEADLOCK FALSE
