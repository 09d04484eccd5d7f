SPECIFICATION MCSpec
CONSTANTS
  Mods = {"m", "n", "o"}
  Xs = {"X", "Y"}
  Classes = {1, 2, 3}
  Sims = {1, 2}
  MaxOps = 4
INVARIANTS RoundTrip Unambiguous Documents Expands
CHECK_DEADLOCK FALSE
