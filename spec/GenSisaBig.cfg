SPECIFICATION GSpec
CONSTANTS
  Probs = {0, 2, 4}
CHECK_DEADLOCK FALSE
