SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2}
  Names = {"a", "b", "c"}
  Delays = {0, 2, 100000000}
  MaxT = 6
INVARIANTS InStates DeadIsLast
PROPERTIES OnlyActive
CHECK_DEADLOCK FALSE
