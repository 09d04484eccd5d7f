SPECIFICATION GSpec
CONSTANTS
  Ids = {"a", "b"}
  MaxDepth = 3
CHECK_DEADLOCK FALSE
