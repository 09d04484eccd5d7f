SPECIFICATION MCSpec
CONSTANTS
  Agents = {1, 2, 3}
  Probs = {0, 4}
  Nets <- MCNets
INVARIANTS TypeOK Certain
PROPERTIES Cause CauseC Heal
CHECK_DEADLOCK FALSE
