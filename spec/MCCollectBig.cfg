SPECIFICATION MCSpec
CONSTANTS MaxSteps = 4
INVARIANTS Faithful OnePerStep TablesFaithful
CHECK_DEADLOCK FALSE
