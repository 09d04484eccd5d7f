SPECIFICATION MCSpec
CONSTANTS
  Ids = {"a", "b", "c"}
  MaxDepth = 3
INVARIANTS Inherited Closest DefaultKept InNames
CHECK_DEADLOCK FALSE
