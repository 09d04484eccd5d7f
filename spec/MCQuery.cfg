SPECIFICATION MCSpec
CONSTANTS
  Agents = {0, 1}
  Nodes = {"n", "m"}
INVARIANTS Laws Symmetric
CHECK_DEADLOCK FALSE
