SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2}
  Envs = {101}
  Names = {"p", "_h", "prop"}
  Values = {"1", "None"}
INVARIANTS Agree Members
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
