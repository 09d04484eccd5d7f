SPECIFICATION MCSpec
CONSTANTS
  Ids = {"a", "b"}
  MaxDepth = 3
INVARIANTS Inherited Closest DefaultKept InNames
CHECK_DEADLOCK FALSE
