SPECIFICATION TSpec
CONSTANTS
  Names = {}
  Ids = {}
INVARIANTS OneToOne InNetwork EdgesInNetwork Population
CHECK_DEADLOCK FALSE
