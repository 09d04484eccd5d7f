SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2, 3}
  Nodes = {"a", "b", "c"}
  MaxTimes = 1
INVARIANTS Bounds
PROPERTIES Grows
CHECK_DEADLOCK FALSE
