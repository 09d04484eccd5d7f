SPECIFICATION GSpec
CONSTANTS
  Agents = {1, 2, 3, 4, 5}
  Orders = {"fifo", "uid"}
  Delays = {0, 1, 2, 3, 7, 100000000}
  MaxNow = 80
  MaxClk = 100
  Depth = 90
  MaxKills = 3
CHECK_DEADLOCK FALSE
