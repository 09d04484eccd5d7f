SPECIFICATION TSpec
CONSTANTS
  MaxT = 0
  MaxS = 0
INVARIANTS StopsOnlyAtLimits NoStepBeyond WithinSteps
CHECK_DEADLOCK FALSE
