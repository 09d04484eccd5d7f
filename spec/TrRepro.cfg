SPECIFICATION TSpec
CONSTANTS
  Seeds = {}
  Params = {}
  Iters = {}
INVARIANTS Injective
CHECK_DEADLOCK FALSE
