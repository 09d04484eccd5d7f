SPECIFICATION MCSpec
CONSTANTS
  Seeds = {"s", "t"}
  Params = {1, 2}
  Iters = {0}
INVARIANTS Injective
PROPERTIES Stable
CHECK_DEADLOCK FALSE
