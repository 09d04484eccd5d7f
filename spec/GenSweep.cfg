SPECIFICATION GSpec
CONSTANTS
  Keys = {"a", "b", "c"}
  MaxValues = 2
  MaxIters = 2
  MaxRows = 2
CHECK_DEADLOCK FALSE
