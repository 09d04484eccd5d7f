SPECIFICATION MCSpec
CONSTANTS
  Keys = {"a", "b"}
  Values = {1, 2}
  MaxIters = 1
  Exporters = {"x", "y"}
  MaxRuns = 1
INVARIANTS Once OwnValues Complete UniqueIds
PROPERTIES Stable
CHECK_DEADLOCK FALSE
