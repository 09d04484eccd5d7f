SPECIFICATION MCSpec
CONSTANTS
  Seeds = {"u", "v"}
  Limits = {0, 5}
  Big = TRUE
INVARIANTS Untouched Obeyed Silent NoTrace
CHECK_DEADLOCK FALSE
