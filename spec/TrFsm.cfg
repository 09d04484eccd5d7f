SPECIFICATION TSpec
CONSTANTS
  Agents = {}
  Names = {}
  Delays = {}
  MaxT = 0
INVARIANTS InStates
CHECK_DEADLOCK FALSE
