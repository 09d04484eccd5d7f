SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2}
  Nodes = {"a", "b"}
  MaxTimes = 2
INVARIANTS Bounds
PROPERTIES Grows
CHECK_DEADLOCK FALSE
