SPECIFICATION TSpec
INVARIANTS Once UniqueIds
CHECK_DEADLOCK FALSE
