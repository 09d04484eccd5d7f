SPECIFICATION MCSpec
CONSTANTS
  MaxStmts = 4
  MaxFiles = 2
INVARIANTS Still OwnFile Single Clean
PROPERTIES Sound
CHECK_DEADLOCK FALSE
