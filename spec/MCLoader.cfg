SPECIFICATION MCSpec
CONSTANTS
  MaxStmts = 3
  MaxFiles = 2
INVARIANTS Still OwnFile Single Clean
PROPERTIES Sound
CHECK_DEADLOCK FALSE
