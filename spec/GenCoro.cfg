SPECIFICATION GSpec
CONSTANTS
  Agents = {}
  Waits = {0, 1, 2}
  MaxT = 0
CHECK_DEADLOCK FALSE
