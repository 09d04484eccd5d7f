SPECIFICATION MCSpec
CONSTANTS
  Keys = {"k1", "k2"}
  Errors = {1, 2}
  Labels = {"a", "b"}
  MaxRuns = 3
INVARIANTS InOrder
PROPERTIES NothingLost ErrorIsLast Complete
CHECK_DEADLOCK FALSE
