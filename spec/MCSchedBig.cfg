SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2, 3}
  Orders = {"free", "fifo", "uid"}
  Delays = {0, 1, 3, 100000000}
  MaxNow = 3
  MaxClk = 6
INVARIANTS NothingInThePast Accounted Final Ordered CanProgress
PROPERTIES Monotone FinalStep
CONSTRAINT Bound
VIEW View
CHECK_DEADLOCK FALSE
