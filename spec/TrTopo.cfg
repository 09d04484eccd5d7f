SPECIFICATION TSpec
INVARIANTS Rooted LinksIn
CHECK_DEADLOCK FALSE
