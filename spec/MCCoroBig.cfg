SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2}
  Waits = {0, 2, 3}
  MaxT = 6
INVARIANTS OwnLocals InProgram
PROPERTIES OneAtATime Sequential
CHECK_DEADLOCK FALSE
