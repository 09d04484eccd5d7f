SPECIFICATION MCSpec
CONSTANTS MaxSteps = 3
INVARIANTS Faithful OnePerStep TablesFaithful
CHECK_DEADLOCK FALSE
