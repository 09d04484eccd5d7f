SPECIFICATION GSpec
CONSTANTS
  MaxStmts = 4
CHECK_DEADLOCK FALSE
