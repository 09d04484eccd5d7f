SPECIFICATION GSpec
CONSTANTS
  Probs = {0, 4}
CHECK_DEADLOCK FALSE
