SPECIFICATION MCSpec
CONSTANTS
  MaxT = 5
  MaxS = 5
INVARIANTS StopsOnlyAtLimits NoStepBeyond WithinSteps CanGoOn
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
