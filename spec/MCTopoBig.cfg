SPECIFICATION MCSpec
CONSTANTS
  Ids = {1, 2}
  Nodes = {1, 2, 3}
  Coords = {0, 1}
  MaxOps = 4
INVARIANTS OneEach Rooted LinksInNetwork Keys Symmetric Monotone Weaker Inside
CHECK_DEADLOCK FALSE
