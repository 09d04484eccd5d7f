SPECIFICATION MCFair
CONSTANTS
  Agents = {1, 2}
  Orders = {"free", "fifo"}
  Delays = {0, 2, 100000000}
  MaxNow = 3
  MaxClk = 5
PROPERTIES WakeUp
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
