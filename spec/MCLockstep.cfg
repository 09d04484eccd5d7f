SPECIFICATION MCFair
CONSTANTS
  Agents = {1, 2}
  Widths = {1, 3, 4}
  Delays = {1, 3, 6, 0, 100000000}
  MaxClock = 8
INVARIANTS OnGrid NotMissed InTime
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
