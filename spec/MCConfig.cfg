SPECIFICATION MCSpec
CONSTANTS
  Mods = {"m", "n"}
  Xs = {"X", "Y"}
  Classes = {1, 2}
  Sims = {1, 2}
  MaxOps = 3
INVARIANTS RoundTrip Unambiguous Documents Expands
CHECK_DEADLOCK FALSE
