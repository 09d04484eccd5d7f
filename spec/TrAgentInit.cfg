SPECIFICATION TSpec
CONSTANTS
  Names = {}
  Values = {}
  Agents = {}
CHECK_DEADLOCK FALSE
