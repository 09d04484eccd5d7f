SPECIFICATION MCSpec
CONSTANTS
  Seeds = {"u"}
  Limits = {0, 5}
  Big = FALSE
INVARIANTS Untouched Obeyed Silent NoTrace
CHECK_DEADLOCK FALSE
