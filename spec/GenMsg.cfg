SPECIFICATION GSpec
CONSTANTS
  Agents = {1, 2, 3}
  Groups = {1, 2}
  MaxT = 12
  MaxMsgs = 14
  Exps = {0, 1, 2, 100000000}
  Deaths = 1
  Acts = {}
  Depth = 60
CHECK_DEADLOCK FALSE
