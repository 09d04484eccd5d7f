SPECIFICATION MCSpec
CONSTANTS
  Names = {"a", "b", "c", "d"}
  Ids = {0, 1, 2}
INVARIANTS OneToOne InNetwork EdgesInNetwork Population
PROPERTIES NoMoves FreshIds
CHECK_DEADLOCK FALSE
