SPECIFICATION MCSpec
CONSTANTS
  Names = {"p"}
  Values = {"None", "x", "y"}
  Agents = {1, 2}
INVARIANTS HasAll Hides
PROPERTIES Own
CHECK_DEADLOCK FALSE
