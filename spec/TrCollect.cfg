SPECIFICATION TSpec
CONSTANTS
  MaxSteps = 0
INVARIANTS OnePerStep
CHECK_DEADLOCK FALSE
