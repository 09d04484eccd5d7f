SPECIFICATION TSpec
INVARIANTS TNothingInThePast TAccounted TFinal
CHECK_DEADLOCK FALSE
