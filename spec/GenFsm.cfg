SPECIFICATION GSpec
CONSTANTS
  Agents = {1, 2, 3}
  Names = {"a", "b", "c"}
  Delays = {0, 1, 2, 3}
  MaxT = 40
  Depth = 40
CHECK_DEADLOCK FALSE
