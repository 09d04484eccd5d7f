SPECIFICATION TSpec
INVARIANTS OnGrid NotMissed
CHECK_DEADLOCK FALSE
