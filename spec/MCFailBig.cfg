SPECIFICATION MCSpec
CONSTANTS
  Keys = {"k1", "k2"}
  Errors = {1, 2}
  Labels = {"a", "b", "c"}
  MaxRuns = 3
INVARIANTS InOrder
PROPERTIES NothingLost ErrorIsLast Complete
CHECK_DEADLOCK FALSE
