SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2, 3}
  Widths = {1, 2, 3, 4, 5}
  Delays = {1, 2, 3, 5, 0, 100000000}
  MaxClock = 9
INVARIANTS OnGrid NotMissed InTime
CHECK_DEADLOCK FALSE
