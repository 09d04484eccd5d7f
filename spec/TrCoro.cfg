SPECIFICATION TSpec
CONSTANTS
  Agents = {}
  Waits = {}
  MaxT = 0
INVARIANTS OwnLocals InProgram
CHECK_DEADLOCK FALSE
