SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2, 3}
  Names = {"a", "b", "c"}
  Delays = {0, 2, 100000000}
  MaxT = 9
INVARIANTS InStates DeadIsLast
PROPERTIES OnlyActive
CHECK_DEADLOCK FALSE
