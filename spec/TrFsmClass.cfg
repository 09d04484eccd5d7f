SPECIFICATION TSpec
CONSTANTS
  Ids = {}
  MaxDepth = 0
INVARIANTS Inherited Closest DefaultKept InNames
CHECK_DEADLOCK FALSE
