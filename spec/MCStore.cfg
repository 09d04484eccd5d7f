SPECIFICATION MCSpec
CONSTANTS
  Paths = {"p"}
  MaxRuns = 4
INVARIANTS AllThere VersionsThere
PROPERTIES Untouched Silent
CHECK_DEADLOCK FALSE
