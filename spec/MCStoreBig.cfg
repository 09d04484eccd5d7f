SPECIFICATION MCSpec
CONSTANTS
  Paths = {"p", "q"}
  MaxRuns = 4
INVARIANTS AllThere VersionsThere
PROPERTIES Untouched Silent
CHECK_DEADLOCK FALSE
