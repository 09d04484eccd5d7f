SPECIFICATION TSpec
CONSTANTS
  Agents = {}
  Nodes = {}
CHECK_DEADLOCK FALSE
