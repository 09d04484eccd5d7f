SPECIFICATION MCSpec
CONSTANTS
  Names = {"p", "q"}
  Values = {"None", "x"}
  Agents = {1, 2}
INVARIANTS HasAll Hides
PROPERTIES Own
CHECK_DEADLOCK FALSE
