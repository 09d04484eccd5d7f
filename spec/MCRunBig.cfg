SPECIFICATION MCSpec
CONSTANTS
  MaxT = 12
  MaxS = 12
INVARIANTS StopsOnlyAtLimits NoStepBeyond WithinSteps CanGoOn
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
